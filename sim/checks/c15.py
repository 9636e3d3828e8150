"""C15: failures of the geometry kernel are contained."""
import array
import gc
import math
import resource
import sys

import numpy

from .. import boot, kernel, simfs, spec as S, steps
from ..runner import Check, alone, clone, generic_shrinks

OPS = ["or", "and", "xor", "not"]
JOINS = ["miter", "bevel", "round"]
G = 0.01
BUDGET = 400000       # lines of gdspy in one operation; it is below a few thousand
EXC = {"RuntimeError": RuntimeError, "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "StopIteration": StopIteration,
       "IndexError": IndexError, "ValueError": ValueError}


# -- operands ---------------------------------------------------------------
def gen_points(rng):
    x = rng.random()
    if x < 0.6:
        k = rng.choice(["rect", "star", "rand", "ring", "comb", "tri"])
        cx, cy = rng.randint(-6, 6), rng.randint(-6, 6)
        if k == "rect":
            w, h = rng.randint(1, 9), rng.randint(1, 9)
            return [[cx, cy], [cx + w, cy], [cx + w, cy + h], [cx, cy + h]][::rng.choice([1, -1])]
        if k == "tri":
            return [[cx, cy], [cx + rng.randint(1, 9), cy], [cx, cy + rng.randint(1, 9)]]
        if k == "star":
            n = rng.choice([5, 12, 60, 200, 300])
            return {"star": [n, rng.choice([2, 5, 10]), rng.choice([0.9, 0.5, 0.1]), cx, cy]}
        if k == "rand":
            return [[rng.uniform(-9, 9), rng.uniform(-9, 9)] for _ in range(rng.choice([4, 6, 9, 14]))]
        if k == "ring":
            return {"ring": [rng.choice([8, 24, 64]), 8, rng.choice([7.99, 6, 3]), cx, cy]}
        return {"comb": [rng.choice([5, 80, 100]), rng.choice([0, 1]), rng.choice([1, 3, 1000])]}
    x = rng.choice(["few", "few", "line", "dup", "spike", "near", "near", "tiny", "tiny", "touch", "touch", "int", rng.choice(["far", "bad", "ragged"])])
    if x == "few":
        return [[rng.randint(0, 9), rng.randint(0, 9)] for _ in range(rng.choice([0, 0, 1, 2]))]
    if x == "line":
        return [[i, 2 * i] for i in range(rng.choice([3, 5]))]
    if x == "dup":
        p = [rng.randint(-3, 3), rng.randint(-3, 3)]
        return [list(p) for _ in range(rng.choice([3, 4]))] + rng.choice([[], [[5, 5]], [[5, 5], [7, 1]]])
    if x == "spike":
        return [[0, 0], [6, 0], [6, 6], [6, 12], [6, 6], [0, 6]]
    if x == "near":
        m = 2 ** 62
        a = rng.choice([m - 1, m // 2, m // 3, 2 ** 31, 2 ** 30 - 1]) / 1000.0
        return [[-a, -a], [a, -a], [a, a], [-a, a]]
    if x == "far":
        a = rng.choice([5e15, 1e19, 1e30, 1e300])
        return [[0, 0], [a, 0], [a, a]]
    if x == "tiny":
        return [[rng.uniform(-3e-3, 3e-3), rng.uniform(-3e-3, 3e-3)] for _ in range(rng.randint(3, 7))]
    if x == "bad":
        p = [[0, 0], [5, 0], [5, 5], [0, 5]]
        p[rng.randrange(4)][rng.randrange(2)] = rng.choice(["nan", "inf", "-inf", "x", None, "1e400", "[]", "complex"])
        return p
    if x == "ragged":
        p = [[0, 0], [5, 0], [5, 5], [0, 5]]
        p[rng.randrange(4)] = rng.choice([[], [1], [1, 2, 3], 7, None, "ab"])
        return p
    if x == "touch":
        return [[0, 0], [4, 0], [4, 4], [8, 4], [8, 8], [4, 8], [4, 4], [0, 4]]
    return [[10 ** 15, 0], [10 ** 15 + 3, 0], [10 ** 15, 5]]


def points(p):
    if isinstance(p, dict):
        if "star" in p:
            n, r, f, cx, cy = p["star"]
            return [[cx + r * (f if i % 2 else 1) * math.cos(2 * math.pi * i / n), cy + r * (f if i % 2 else 1) * math.sin(2 * math.pi * i / n)] for i in range(n)]
        if "ring" in p:
            n, r, s, cx, cy = p["ring"]
            a = [2 * math.pi * i / n for i in range(n + 1)]
            return [[cx + r * math.cos(t), cy + r * math.sin(t)] for t in a] + [[cx + s * math.cos(t), cy + s * math.sin(t)] for t in reversed(a)]
        n, flip, w = p["comb"]
        out = [[0.0, 0.0]]
        for i in range(n):
            out += [[float(w), 4.0 * i], [float(w), 4.0 * i + 2], [w - 0.5, 4.0 * i + 3]]
        out.append([0.0, 4.0 * n])
        return [[b, a] for a, b in out] if flip else out
    return p


def coordinate(v):
    """A coordinate object of its own (its references are counted)."""
    if isinstance(v, str):
        return {"nan": math.nan, "inf": math.inf, "-inf": -math.inf, "x": "x", "1e400": 10 ** 400, "[]": [], "complex": 1j}.get(v, v)
    if v is None:
        return None
    if isinstance(v, int) and abs(v) > 10 ** 14:
        return int(str(v))
    return float(repr(float(v)))


def gen_operand(rng, geometry=True):
    x = rng.random()
    if x < 0.02:
        return {"f": "none"}
    if x < 0.24:
        return {"f": "set", "p": [gen_points(rng) for _ in range(rng.choice([1, 1, 2, 3]))]}
    if x < 0.42 and geometry:
        o = S.Opt(big=0, far=0, hugearr=0, missing=0, props=0, callbacks=False, range=900, curves=True)
        k = rng.choice(["flex", "flexg", "robust", "robustg", "sref", "aref", "round", "text", "rect"])
        o.kinds = [k]
        e = S.element(rng, o, ["T"])
        if k in ("sref", "aref"):
            return {"f": "elem", "e": e, "t": [gen_points(rng) for _ in range(rng.choice([0, 1, 2]))]}
        return {"f": "elem", "e": e}
    items = [gen_points(rng) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))]
    forms = [rng.choice(["list", "list", "tuple", "array", "array", "ints", "f32", "big", "strided", "readonly", "set", "seq", "seq", "seq", "odd"]) for _ in items]
    if "odd" in forms:
        forms = [rng.choice(["pydict", "pyset", "str", "number"]) if f == "odd" else f for f in forms]
    out = {"f": rng.choice(["list"] * 9 + ["tuple"] * 3 + ["gen", "seq", "seq", "stack", "stack", "dict"]), "p": items, "pf": forms}
    if "seq" in forms or out["f"] == "seq":
        out["h"] = gen_hostile(rng)
    return out


def gen_hostile(rng):
    return {"k": rng.choice(["ok", "ok", "raise", "raise", "raise", "short", "long", "huge", "neg", "lenraise", "lentype", "nest", "clear", "gone", "gone", "float", "grow"]),
            "at": rng.random(), "exc": rng.choice(sorted(EXC)), "n": rng.choice([1, 2, 7, 10 ** 12, 2 ** 62, 2 ** 63 - 1])}


class User(Exception):
    pass


class Hostile(object):
    """Sequences under the caller's control: every access goes through here.
    armed: deviates from its contents at the access chosen by the plan."""

    def __init__(self, h, world):
        self.h, self.world = h, world
        self.seen = 0
        self.at = None
        self.fired = False

    def access(self, owner, what):
        self.seen += 1
        if self.at is not None and self.seen == self.at:
            self.fired = True
            k = self.h["k"]
            if k == "raise" or k == "float":
                raise EXC[self.h["exc"]]("user sequence (simulated)")
            if k == "nest":
                self.world.nested()
            if k == "clear":
                del owner.items[:]
            if k == "gone":
                self.world.clear()
            if k == "grow":
                owner.items.extend(owner.items[:3])


class Seq(object):
    def __init__(self, items, hostile):
        self.items, self.hostile = items, hostile

    def __len__(self):
        h = self.hostile
        k = h.h["k"]
        if h.at is not None and k in ("short", "long", "huge", "neg", "lenraise", "lentype"):
            h.fired = True
            n = len(self.items)
            if k == "short":
                return max(0, n - 1)
            if k == "long":
                return n + min(h.h["n"], 7)
            if k == "huge":
                return max(h.h["n"], 10 ** 12)
            if k == "neg":
                return -1
            if k == "lentype":
                return "many"
            raise EXC[h.h["exc"]]("user sequence (simulated)")
        h.access(self, "len")
        return len(self.items)

    def __getitem__(self, i):
        self.hostile.access(self, "item")
        return self.items[i]


class Num(object):
    def __init__(self, v, hostile):
        self.v, self.hostile = v, hostile
        self.items = []

    def __float__(self):
        self.hostile.access(self, "float")
        return self.v


class World(object):
    """The operands of a run, built from the plan."""

    def __init__(self, gd, plan):
        self.gd = gd
        self.plan = plan
        self.hostiles = {}
        self.atoms = []
        self.lists = []
        self.ops = [self.operand(i, o) for i, o in enumerate(plan["operands"])]

    def keep(self, o):
        self.atoms.append(o)
        return o

    def polygon(self, p, form, i):
        p = points(p)
        if form == "seq":
            h = self.hostiles[i]
            return self.keep(Seq([Seq([self.keep(Num(float(v), h)) if isinstance(v, (int, float)) else coordinate(v) for v in q], h)
                                  if isinstance(q, list) else q for q in p], h))
        pts = [self.keep([self.keep(coordinate(v)) for v in q]) if isinstance(q, list) else q for q in p]
        if form in ("array", "ints", "f32", "big", "strided", "readonly", "set"):
            try:
                a = numpy.array(pts, dtype=float)
                if a.ndim != 2:
                    a = a.reshape((-1, 2))
                if form == "ints":
                    a = numpy.array(numpy.round(numpy.nan_to_num(a)), dtype=numpy.int64)
                elif form == "f32":
                    a = a.astype(numpy.float32)
                elif form == "big":
                    a = a.astype(">f8")
                elif form == "strided":
                    b = numpy.zeros((len(a), 4))
                    b[:, ::2] = a
                    a = b[:, ::2]
                elif form == "readonly":
                    a.flags.writeable = False
            except (TypeError, ValueError, OverflowError):
                return self.keep(pts)
            if form == "set":
                return self.keep(self.gd.PolygonSet([a]))
            return self.keep(a)
        if form == "tuple":
            return self.keep(tuple(tuple(q) if isinstance(q, list) else q for q in pts))
        if form == "pydict":
            return self.keep(dict(enumerate(pts)))
        if form == "pyset":
            return self.keep(set(map(str, pts)))
        if form == "str":
            return self.keep("".join(["po", "ly"]))
        if form == "number":
            return 7.5
        self.lists.append(pts)
        return self.keep(pts)

    def operand(self, i, o):
        gd = self.gd
        f = o["f"]
        self.hostiles[i] = Hostile(o.get("h") or {"k": "ok"}, self)
        if f == "none":
            return None
        if f == "set":
            ps = []
            for p in o["p"]:
                a = self.polygon(p, "array", i)
                if isinstance(a, numpy.ndarray):
                    ps.append(a)
            return self.keep(gd.PolygonSet(ps, 3, 4))
        if f == "elem":
            cells = {}
            if o["e"]["k"] in ("sref", "aref"):
                c = cells["T"] = gd.Cell("T")
                for p in o["t"]:
                    a = self.polygon(p, "array", i)
                    if isinstance(a, numpy.ndarray):
                        c.add(gd.PolygonSet([a]))
            return self.keep(S.make(gd, o["e"], G, cells, S.Hooks()))
        items = [self.polygon(p, pf, i) for p, pf in zip(o["p"], o["pf"])]
        if f == "tuple":
            return self.keep(tuple(items))
        if f == "gen":
            return {"gen": items}
        if f == "seq":
            return self.keep(Seq(items, self.hostiles[i]))
        if f == "stack":
            try:
                return self.keep(numpy.array([numpy.array(q, dtype=float) for q in items]))
            except Exception:
                return self.keep(items)
        if f == "dict":
            return self.keep(dict(enumerate(items)))
        self.lists.append(items)
        return self.keep(items)

    def get(self, i):
        if i is None:
            return None
        o = self.ops[i]
        if isinstance(o, dict) and "gen" in o:
            return (p for p in o["gen"])
        return o

    def direct(self, a, one=False):
        """An argument for the extension: polygons alone, or whatever it is."""
        x = self.get(a["a"] if one is not None else a["b"])
        if a["raw"] or x is None:
            return x
        if not isinstance(x, (list, tuple, Seq)):
            x = list(self.gd.operation._gather_polys(x)) if not isinstance(x, dict) else list(x.values())
        if one:
            return x[0] if len(x) else []
        return x

    def nested(self):
        """An operation started while another one reads its operands."""
        self.inner = canon(self.gd.boolean([[(0, 0), (2, 0), (0, 2)]], [[(1, 0), (3, 0), (1, 2)]], "or"))

    def clear(self):
        for l in self.lists:
            del l[:]

    def state(self):
        return [canon(o, deep=True) for o in self.ops]

    def refs(self):
        return [sys.getrefcount(o) for o in self.atoms]


def canon(x, deep=False):
    """Plain data with the same contents."""
    if isinstance(x, numpy.ndarray):
        if x.dtype.hasobject:
            return ("objects", x.shape, canon(x.tolist(), deep))
        return ("array", x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(canon(y, deep) for y in x)
    if isinstance(x, float):
        return x.hex()
    if isinstance(x, (int, bool, str, bytes, complex)) or x is None:
        return repr(x)
    if isinstance(x, dict):
        return ("dict",) + tuple((canon(k, deep), canon(v, deep)) for k, v in x.items())
    if isinstance(x, Seq):
        return ("seq", canon(x.items, deep))
    if isinstance(x, Num):
        return ("num", x.v.hex())
    if hasattr(x, "polygons") and hasattr(x, "layers"):
        return (type(x).__name__, canon(x.polygons), canon(list(x.layers)), canon(list(x.datatypes)))
    if hasattr(x, "ref_cell"):
        return (type(x).__name__, canon([p for p in x.ref_cell.polygons]), canon(x.origin if isinstance(x.origin, tuple) else list(x.origin)), x.rotation, x.magnification, x.x_reflection)
    if hasattr(x, "gdsii_path"):
        s = [type(x).__name__, x.layers, x.datatypes]
        if hasattr(x, "points"):
            s += [canon(numpy.array(x.points)), canon(numpy.array(x.widths)), canon(numpy.array(x.offsets))]
        else:
            s += [len(x), canon(list(x.x))]
        return tuple(repr(v) for v in s)
    return type(x).__name__


# -- operations ---------------------------------------------------------------
PREC = [1e-3] * 60 + [1e-4, 1e-2, 0.1] * 4 + [1e-2, 1e-2, 0.5, 1e-6, 1e-9, 0, "nan", "inf", -1e-3, 1e-300, "x", None]


def gen_op(rng, n, sets):
    k = rng.choice(["bool", "bool", "bool", "offset", "offset", "slice", "slice", "inside", "inside", "fracture", "fracture", "clip", "coffset", "cinside", "chop"])
    o = {"k": k, "a": rng.randrange(n), "p": rng.choice(PREC), "m": rng.choice([0, 5, 5, 8, 20, 199, 199, 199])}
    o["raw"] = rng.random() < 0.1
    if k in ("bool", "clip"):
        o["b"] = rng.choice([None] + list(range(n)) * 2)
        o["o"] = rng.choice(OPS * 10 + ["nand", "", 3])
    elif k in ("offset", "coffset"):
        o["d"] = rng.choice([0.5, 1, -0.5, 0.01, 3, -9, 0] + [0.3, -0.2] * 5 + [rng.choice([1e6, "nan", "inf", "x"])])
        o["j"] = rng.choice(JOINS * 12 + ["mitre", None])
        o["t"] = rng.choice([2, 2, 3, 8, 64] * 3 + [0, -1, 1.5, "nan"])
        if o["j"] == "round" and o["p"] in (1e-6, 1e-9, 1e-300):
            o["p"] = 1e-3       # an astonishing number of points
        o["f"] = rng.random() < 0.4
    elif k in ("slice", "chop"):
        o["pos"] = rng.choice([[rng.uniform(-6, 6)], [rng.uniform(-6, 6) for _ in range(rng.randint(1, 4))], [], [0, 0], 1.5, [-100, 100], [rng.uniform(-6, 6)], [-3, -1, 0, 2, 5], rng.choice([[1e30], ["nan"], ["x"], None]), ["seq"], ["seq"], ["seq"]])
        o["ax"] = rng.choice([0, 1] * 10 + [2, -1, 256, None])
        o["l"] = rng.choice([0, [1, 2], []])
        o["h"] = gen_hostile(rng)
    elif k in ("inside", "cinside"):
        if rng.random() < 0.5:
            o["pts"] = [[rng.uniform(-9, 9), rng.uniform(-9, 9)] for _ in range(rng.randint(0, 6))]
        else:
            o["pts"] = [[[rng.uniform(-9, 9), rng.uniform(-9, 9)] for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.15 and o["pts"]:
            o["pts"][rng.randrange(len(o["pts"]))] = rng.choice([None, 7, [], ["nan", 0], [1e30, 0], [[1]], ["x", "y"], "ab"])
        o["sc"] = rng.choice(["any", "any", "all", "none", 5])
        o["flat"] = all(isinstance(q, list) and len(q) == 2 and not isinstance(q[0], list) for q in o["pts"])
        o["scn"] = rng.choice([0, 1, -1, 1, -1, 7, "x"])
        if k == "cinside" and not o["pts"] and rng.random() < 0.7:
            o["flat"] = False
        if o["flat"]:
            o["scn"] = 0
        o["ph"] = rng.random() < 0.3
        o["h"] = gen_hostile(rng)
    elif k == "fracture":
        if sets:
            o["a"] = rng.choice(sets)
        elif rng.random() < 0.8:
            o["k"], o["b"], o["o"], o["p"] = "bool", rng.randrange(n), "or", rng.choice([1e-3, 1e-3, -1e-3])
            return o
        o["m"] = rng.choice([5, 5, 6, 8, 20, 50, 199] * 2 + [4, 0, -3, "x"])
        o["c"] = rng.choice(["fracture", "fracture", "fracture", "fillet"])
    return o


def number(v):
    return {"nan": math.nan, "inf": math.inf}.get(v, v) if isinstance(v, str) else v


def nums(v):
    if isinstance(v, list):
        return [nums(x) for x in v]
    return number(v)


def prepare(world, o):
    """The arguments of an operation, built anew."""
    gd = world.gd
    a = dict(o)
    h = None
    if o["k"] in ("slice", "chop"):
        pos = nums(o["pos"])
        if o["pos"] == ["seq"]:
            h = Hostile(o["h"], world)
            pos = Seq([Num(-1.0, h), Num(1.5, h)], h)
        a["pos"] = world.keep(pos)
    elif o["k"] in ("inside", "cinside"):
        pts = nums(o["pts"])
        if o["ph"]:
            h = Hostile(o["h"], world)

            def wrap(x):
                if isinstance(x, list):
                    return Seq([wrap(y) for y in x], h)
                return Num(x, h) if isinstance(x, float) and o["k"] == "cinside" else x
            pts = wrap(pts)
        a["pts"] = world.keep(pts)
    a["prec"] = number(o["p"])
    return a, h


def perform(world, a):
    gd = world.gd
    c = sys.modules["gdspy.clipper"]
    k, prec, m = a["k"], a["prec"], a["m"]
    if k == "bool":
        return gd.boolean(world.get(a["a"]), world.get(a["b"]), a["o"], prec, m, 1, 2)
    if k == "clip":
        return c.clip(world.direct(a), world.direct(a, None), a["o"], 1 / prec)
    if k == "offset":
        return gd.offset(world.get(a["a"]), number(a["d"]), a["j"], number(a["t"]), prec, a["f"], m)
    if k == "coffset":
        return c.offset(world.direct(a), number(a["d"]), a["j"], number(a["t"]), 1 / prec, a["f"])
    if k == "slice":
        return gd.slice(world.get(a["a"]), a["pos"], a["ax"], prec, a["l"])
    if k == "chop":
        return c._chop(world.direct(a, True), a["pos"], a["ax"], 1 / prec)
    if k == "inside":
        return gd.inside(a["pts"], world.get(a["a"]), a["sc"], prec)
    if k == "cinside":
        return c.inside([a["pts"]] if a["flat"] else a["pts"], world.direct(a), a["scn"], 1 / prec)
    s = world.get(a["a"])
    if k == "fracture":
        if a["c"] == "fillet":
            return s.fillet(0.3, 16, number(m), prec)
        return s.fracture(number(m), prec)
    raise AssertionError(k)


def outcome(world, a):
    """Plain data: what the operation gave."""
    r = None
    try:
        r = perform(world, a)
        return ("returned", canon(r)), None
    except steps.Hang:
        raise
    except BaseException as e:
        e.__traceback__ = None
        return ("raised", type(e).__name__), e


PROBES = [
    lambda gd: gd.boolean(gd.Rectangle((0, 0), (10, 10)), gd.Round((5, 5), 3), "not"),
    lambda gd: gd.offset([[(0, 0), (5, 0), (5, 5), (2, 1)]], 0.7, "round", 24),
    lambda gd: gd.slice(gd.Round((0, 0), 10, inner_radius=5), [-7, 7], 0),
    lambda gd: gd.inside([[(0, 0), (8, 0)], [(20, 0)]], gd.Round((0, 0), 10, inner_radius=5), "any"),
    lambda gd: gd.PolygonSet([points({"comb": [20, 0, 5]})]).fracture(20),
]


class C15(Check):
    id = "C15"
    title = "failures of the geometry kernel are contained"
    quick = (20000, 80.0)
    thorough = (200000, 800.0)
    real = "the compiled extension (gdspy's clipper.cpp, with its calls to the allocator and to CPython's allocating functions routed through the simulator) and gdspy"
    stub = "allocations of the extension, contents of fresh memory, sequences and numbers supplied by the caller, interrupts"
    key_measure = "distinct (operation, form of the operands, fault with its site or deviation, outcome) combinations"
    case_measure = "a case is one operation with its outcome; non-trivial if a fault struck it or an operand is hostile or malformed; distinct by operation, operands and fault"
    assumptions = ["in the compiled code only allocations fail and only user objects run foreign code: an interrupt cannot be delivered inside it",
                   "an outcome under a sequence that misreports its length or changes while it is read is only required to be an ordinary one and repeatable"]

    def plan(self, rng):
        n = rng.randint(1, 3)
        p = {"operands": [gen_operand(rng) for _ in range(n)]}
        sets = [i for i, o in enumerate(p["operands"]) if o["f"] == "set" or o["f"] == "elem" and o["e"]["k"] in ("round", "text", "rect")]
        p["ops"] = []
        for _ in range(rng.randint(1, 5)):
            o = gen_op(rng, n, sets)
            x = rng.random()
            if x < 0.35:
                o["fault"] = {"kind": "alloc", "at": rng.random(), "n": rng.choice([1, 1, 1, 2, 10 ** 6]), "mask": rng.choice([7, 7, 2, 4])}
            elif x < 0.5:
                o["fault"] = {"kind": "irq", "at": rng.random(), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
            elif x < 0.8:
                o["fault"] = {"kind": "user", "at": rng.random()}
                users = [i for i, x in enumerate(p["operands"]) if x.get("h", {"k": "ok"})["k"] != "ok"]
                if users and o["k"] != "fracture":
                    o["a"] = rng.choice(users)
            p["ops"].append(o)
        p["fill"] = rng.randint(0, 255)
        return p

    def shrinks(self, plan):
        yield from generic_shrinks(plan, [("ops",), ("operands", "*", "p"), ("operands", "*", "p", "*")])
        for i, o in enumerate(plan["ops"]):
            if "fault" in o:
                q = clone(plan)
                del q["ops"][i]["fault"]
                yield q
        for i, o in enumerate(plan["operands"]):
            if o["f"] != "none":
                q = clone(plan)
                q["operands"][i] = {"f": "set", "p": [[[0, 0], [1, 0], [0, 1]]]}
                yield q

    def run(self, plan, res):
        gd = boot.gdspy
        simfs.current = simfs.SimFS()
        soft = 4 << 30
        resource.setrlimit(resource.RLIMIT_AS, (soft, soft))
        steps.install(fine=True)
        kernel.lib()
        # what each operation gives undisturbed, alone in a process of its own
        golden = [alone(lambda: self.undisturbed(gd, plan, o)) for o in plan["ops"]]
        probes = alone(lambda: [canon(f(gd)) for f in PROBES])
        kernel.fill(plan["fill"])
        for o, g in zip(plan["ops"], golden):
            if g is None:
                res.violate("crash", "%s: the process died in an undisturbed operation" % self.tell(plan, o))
                return
            if not self.one(gd, plan, o, g, res):
                return
        for i, f in enumerate(PROBES):
            r = canon(f(gd))
            res.evals += 1
            res.see(r)
            if r != probes[i]:
                res.violate("later-operation", "probe %d after %s gives %s instead of %s" % (i, [self.tell(plan, o) for o in plan["ops"]], str(r)[:300], str(probes[i])[:300]))
                return
        res.samples.append({"operations": [self.tell(plan, o) for o in plan["ops"]]})

    def tell(self, plan, o):
        f = o.get("fault")
        def form(i):
            if i is None:
                return "-"
            x = plan["operands"][i]
            return x["e"]["k"] if x["f"] == "elem" else x["f"] + ("!" + x["h"]["k"] if "h" in x else "")
        return "%s(%s%s)%s" % (o["k"], form(o["a"]), "," + form(o["b"]) if "b" in o else "", "+" + f["kind"] if f else "")

    def undisturbed(self, gd, plan, o):
        """(outcome, operands afterwards, accesses, lines, allocations by mask)"""
        kernel.fill(-1)
        w = World(gd, plan)
        a, h = prepare(w, o)
        kn = kernel.Kernel()
        mask = o.get("fault", {}).get("mask", 7)
        kn.arm(0, 1, mask)
        with steps.Steps(budget=BUDGET) as st:
            out, _ = outcome(w, a)
        allocs = kn.disarm()[0]
        hs = list(w.hostiles.values()) + ([h] if h else [])
        return out, w.state(), [x.seen for x in hs], st.n, allocs

    def arm(self, o, g, w, h):
        """Arms the hostile sequences; whether there are any."""
        hs = list(w.hostiles.values()) + ([h] if h else [])
        used = [x for x, n in zip(hs, g[2]) if n and x.h["k"] != "ok"]
        for x, n in zip(hs, g[2]):
            x.seen = 0
            x.fired = False
            x.at = None
            if x in used[:1]:
                x.at = 1 + int(o["fault"]["at"] * n)
        return used[:1]

    def one(self, gd, plan, o, g, res):
        f = o.get("fault")
        kind = f["kind"] if f else None
        golden, after, seen, lines, allocs = g
        what = self.tell(plan, o)
        w = World(gd, plan)
        a, h = prepare(w, o)
        before = w.state()
        args = canon([a.get("pos"), a.get("pts")])
        gc.collect()
        refs = w.refs()
        held = kernel.live()
        used = []
        fired = None
        kn = kernel.Kernel()
        if kind == "alloc" and allocs:
            kn.arm(1 + int(f["at"] * allocs), f["n"], f["mask"])
            out, err = outcome(w, a)
            fired = "allocation" if kn.disarm()[1] else None
        elif kind == "irq" and lines and golden[0] == "returned":
            with steps.Steps(budget=BUDGET, at=1 + int(f["at"] * lines), exc=EXC[f["exc"]]) as st:
                out, err = outcome(w, a)
            fired = f["exc"] if st.fired else None
        elif kind == "user" and seen:
            used = self.arm(o, g, w, h)
            out, err = outcome(w, a)
            fired = "user sequence: " + used[0].h["k"] if used and used[0].fired else None
        else:
            with steps.Steps(budget=BUDGET):
                out, err = outcome(w, a)
        for x in used:
            x.at = None
        res.evals += 1
        res.see(what, out)
        name = type(err).__name__ if err is not None else None
        res.count("undisturbed result" if golden[0] == "returned" else "undisturbed " + golden[1])
        if fired:
            res.add({fired: 1})
        if isinstance(err, SystemError) or err is not None and not isinstance(err, Exception) and not (
                fired and isinstance(err, KeyboardInterrupt) and (f.get("exc") == "KeyboardInterrupt" or used and used[0].h["exc"] == "KeyboardInterrupt")):
            res.violate("not-ordinary", "%s with %s: %s: %s" % (what, fired, name, err))
            return False
        loose = used and used[0].h["k"] in ("short", "long", "huge", "neg", "lentype", "clear", "gone", "grow", "nest")
        # the end of a sequence, where it is read by iteration
        loose = loose or used and used[0].h["k"] in ("raise", "float", "lenraise") and used[0].h["exc"] in ("IndexError", "StopIteration")
        if out[0] == "returned" and out != golden and not (loose and used[0].h["k"] != "nest"):
            res.violate("wrong-result", "%s with %s: %s instead of %s" % (what, fired, str(out)[:300], str(golden)[:300]))
            return False
        if out != golden and not fired:
            res.violate("wrong-outcome", "%s undisturbed: %s instead of %s" % (what, str(out)[:300], str(golden)[:300]))
            return False
        if used and used[0].h["k"] == "nest" and fired:
            if out != golden:
                res.violate("wrong-outcome", "%s with another operation inside: %s instead of %s" % (what, str(out)[:300], str(golden)[:300]))
                return False
        if loose:
            # the same, whatever the memory contains
            again = []
            for byte in (-1, plan["fill"] ^ 0x5A):
                kernel.fill(byte)
                w2 = World(gd, plan)
                a2, h2 = prepare(w2, o)
                u2 = self.arm(o, g, w2, h2)
                again.append(outcome(w2, a2)[0])
                w2 = a2 = h2 = u2 = None
            kernel.fill(plan["fill"])
            if again[0] != out or again[1] != out:
                res.violate("not-repeatable", "%s with %s: %s, then %s and %s" % (what, fired, str(out)[:200], str(again[0])[:200], str(again[1])[:200]))
                return False
        # operands
        mutated = used and used[0].h["k"] in ("clear", "gone", "grow")
        if not mutated:
            now = w.state()
            expect = after if out[0] == "returned" and not fired else before
            if o["k"] == "fracture" and out[0] == "returned":
                expect = after
            if now != expect:
                i = [x == y for x, y in zip(now, expect)].index(False)
                res.violate("operands-changed", "%s with %s (%s): operand %d is %s, was %s" % (what, fired, out[0], i, str(now[i])[:200], str(expect[i])[:200]))
                return False
            if canon([a.get("pos"), a.get("pts")]) != args:
                res.violate("operands-changed", "%s with %s: its arguments were %s, are %s" % (what, fired, str(args)[:300], str(canon([a.get("pos"), a.get("pts")]))[:300]))
                return False
        err = None
        out = None
        if o["k"] != "fracture" and not mutated:
            gc.collect()
            now = w.refs()
            if now != refs:
                d = [(type(w.atoms[i]).__name__, x, y) for i, (x, y) in enumerate(zip(refs, now)) if x != y]
                res.violate("references", "%s with %s: reference counts changed: %s" % (what, fired, d[:6]))
                return False
        # nothing accumulates
        if kernel.live() > held or fired and not mutated and o["k"] != "fracture" and kind != "irq":
            if not self.again(gd, plan, o, g, w, a, h, fired, what, res):
                return False
        if fired and not mutated and o["k"] != "fracture" and kind != "irq":
            # the cause gone: the same operands, the same operation
            for x in list(w.hostiles.values()) + ([h] if h else []):
                x.at = None
            out, err = outcome(w, a)
            res.evals += 1
            if out != golden:
                res.violate("wrong-outcome", "%s once more after %s: %s instead of %s" % (what, fired, str(out)[:300], str(golden)[:300]))
                return False
        if fired or "!" in what:
            res.case(what, fired, plan["operands"], o)
        res.key(what, fired, name or "returned")
        return True

    def again(self, gd, plan, o, g, w, a, h, fired, what, res):
        """The same with the same operands, several times: the memory in use
        does not grow every time."""
        f = o.get("fault") or {"kind": None}
        kn = kernel.Kernel()
        grow = []
        rec = array.array("q", [0] * 6)
        for _ in range(4):
            gc.collect()
            rec[0] = kernel.heap()
            rec[1] = kernel.live()
            rec[2] = sys.getallocatedblocks()
            if f["kind"] == "alloc":
                kn.arm(1 + int(f["at"] * g[4]), f["n"], f["mask"])
                outcome(w, a)
                kn.disarm()
            elif f["kind"] == "irq":
                with steps.Steps(budget=BUDGET, at=1 + int(f["at"] * g[3]), exc=EXC[f["exc"]]):
                    outcome(w, a)
            else:
                if f["kind"] == "user":
                    self.arm(o, g, w, h)
                outcome(w, a)
            gc.collect()
            rec[3] = sys.getallocatedblocks()
            rec[4] = kernel.live()
            rec[5] = kernel.heap()
            grow.append((rec[3] - rec[2], rec[4] - rec[1], rec[5] - rec[0]))
        py, live, heap = (min(x[i] for x in grow) for i in range(3))
        if py > 0:
            res.violate("leak", "%s with %s: the blocks held by Python grow by %s every time" % (what, fired, [x[0] for x in grow]))
            return False
        if live > 0 and heap > 0:
            res.violate("leak", "%s with %s: the blocks held by the extension grow by %s every time" % (what, fired, [x[1] for x in grow]))
            return False
        return True


CHECK = C15()
