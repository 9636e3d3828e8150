"""C16: the viewer keeps its picture and its state in step under any events."""
import importlib
import math
import re
import sys

import numpy

from .. import boot, observe, spec as S, steps, tkstub, util
from ..runner import Check, clone, generic_shrinks

F = 10 ** 7
FLOAT = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")
NAMES = {v: k for k, v in S.ANCHORS.items()}
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


class Injected(Exception):
    pass


class Wrong(Exception):
    def __init__(self, kind, detail):
        self.kind, self.detail = kind, detail


def color(rng):
    return "#%02x%02x%02x" % (rng.randrange(256), rng.randrange(256), rng.randrange(256))


def gen_filter(rng):
    def one():
        x = rng.random()
        if x < 0.25:
            return "*"
        if x < 0.6:
            return str(rng.choice([0, 0, 1, 2, 3, 7, "01"]))
        a = rng.randint(0, 3)
        return rng.choice(["%d-%d", "%d - %d"]) % (a, rng.randint(0, 5))

    def many():
        return rng.choice([",", ", ", " ,"]).join(one() for _ in range(rng.choice([1, 1, 1, 2])))
    if rng.random() < 0.2:
        return rng.choice(["", "(1)", "1/2", "(1/2", "(a/b)", "(1/2)(3/4)", "(-1/2)", "(1/2);import os", "((1/2))", "(1/2/3)", "(*//)"])
    return rng.choice([", ", ","]).join("(" + many() + rng.choice(["/", " / "]) + many() + ")" for _ in range(rng.choice([1, 1, 2, 3])))


def wanted(text):
    """Filter text -> predicate, or None if it is not one (own reading of it)."""
    t = re.sub(r"\s*([-,/()*])\s*", r"\1", text).strip()
    num = r"(?:\*|\d+(?:-\d+)?)"
    if not re.fullmatch(r"\({n}(?:,{n})*/{n}(?:,{n})*\)(?:,\({n}(?:,{n})*/{n}(?:,{n})*\))*".format(n=num), t, re.ASCII):
        return None
    rules = []
    for part in t[1:-1].split("),("):
        two = []
        for side in part.split("/"):
            alts = []
            for s in side.split(","):
                if s == "*":
                    alts.append((0, 10 ** 9))
                else:
                    a, _, b = s.partition("-")
                    alts.append((int(a), int(b or a)))
            two.append(alts)
        rules.append(two)
    return lambda l, d: any(any(a <= l <= b for a, b in r[0]) and any(a <= d <= b for a, b in r[1]) for r in rules)


class Session(object):
    """One viewer, its user, and the model of what it must show."""

    def __init__(self, check, plan, view, twin, hooks, res, auto):
        self.view, self.res, self.auto = view, res, auto
        self.lib, self.twin = twin
        self.hooks = hooks
        self.tk = tkstub
        self.log = []
        a = view["args"]
        self.hidden = {tuple(k): True for k in a.get("hidden_types", [])}
        self.known_hidden = True
        self.colors = {}
        self.patterns = {}
        self.given_c = {self.key(k): v for k, v in a.get("color", [])}
        self.given_p = {self.key(k): v for k, v in a.get("pattern", [])}
        self.depth = a.get("depth", 0)
        self.rows = None
        self.ruler = None
        self.fresh = True        # the picture was just brought to its extents
        self.arity = None
        self.cache = {}

    @staticmethod
    def key(k):
        return tuple(k) if isinstance(k, list) else k

    # -- finding the widgets
    def find(self, app):
        tk = self.tk
        self.app = app
        cans = [w for w in app.widgets if isinstance(w, tk.Canvas) and w.alive]
        main = [c for c in cans if any(k[0] == "Motion" for k in c.bindings)]
        if len(main) != 1 or len(cans) != 2:
            raise Wrong("widgets", "expected a drawing canvas and a layer list")
        self.c = main[0]
        self.l = [c for c in cans if c is not self.c][0]
        self.root = app.root
        self.buttons = {w.opts.get("text"): w for w in app.widgets if isinstance(w, tk.Button) and w.alive}
        self.menu = [w for w in app.widgets if isinstance(w, tk.OptionMenu)][0]
        self.spin = [w for w in app.widgets if isinstance(w, tk.Spinbox)][0]
        labs = [w for w in app.widgets if isinstance(w, tk.Label) and w.alive]
        texts = {}
        for x in (F, -F):
            self.motion(x, -2 * x)
            for w in labs:
                texts.setdefault(id(w), []).append(w.opts.get("text"))
        moved = [w for w in labs if len(set(texts[id(w)])) > 1]
        if len(moved) != 1:
            raise Wrong("coordinates", "moving the pointer updates %d texts" % len(moved))
        self.coords = moved[0]
        self.cell = self.menu.variable.get()

    def motion(self, x, y, state=0):
        self.tk.fire(self.c, "Motion", state=state, x=x, y=y)

    def read(self, x, y):
        self.motion(x, y)
        v = [float(t) for t in FLOAT.findall(self.coords.opts["text"])]
        if len(v) not in (2, 3):
            raise Wrong("coordinates", "shown as %r" % self.coords.opts["text"])
        return v

    # -- the view: layout = (a * X + bx, -a * Y + by) for canvas position (X, Y)
    def learn(self):
        c = self.c
        v = [self.read(F, F), self.read(-F, -F)]
        n = len(v[0])
        self.on = n == 3
        ax = (v[0][-2] - v[1][-2]) / (2.0 * F)
        ay = (v[0][-1] - v[1][-1]) / (2.0 * F)
        if not ax > 0 or abs(ax + ay) > 2e-5 * ax:
            raise Wrong("view", "scale %r across, %r up" % (ax, -ay))
        # again where six digits say most
        f = int(9.9 * 10.0 ** (math.ceil(math.log10(9.9e6 * ax)) - 1) / ax)
        while f > 2 * F:
            f //= 10
        v = [self.read(f, f), self.read(-f, -f)]
        ax = (v[0][-2] - v[1][-2]) / (2.0 * f)
        ay = (v[0][-1] - v[1][-1]) / (2.0 * f)
        if not ax > 0 or abs(ax + ay) > 2e-5 * ax:
            raise Wrong("view", "scale %r across, %r up" % (ax, -ay))
        zero = self.read(-c.xo, -c.yo)
        self.a = ax
        if n == 2:
            self.bx, self.by = zero
        else:
            lines = self.shown("line")
            if len(lines) != 1 or len(lines[0].coords) != 4:
                raise Wrong("ruler", "distances are shown with %d lines drawn" % len(lines))
            x0, y0 = lines[0].coords[:2]
            if self.ruler is None:
                raise Wrong("ruler", "measures without having been started: %r" % self.coords.opts["text"])
            self.bx = self.ruler[0] - self.a * x0
            self.by = self.ruler[1] + self.a * y0
            # distances are layout distances from the start
            for px, py in ((c.pixels()[0] // 2, 7), (31, c.pixels()[1] // 3)):
                d, dx, dy = self.read(px, py)
                X, Y = c.canvasx(px), c.canvasy(py)
                ex, ey = self.a * X + self.bx - self.ruler[0], -self.a * Y + self.by - self.ruler[1]
                tol = self.a * (0.05 + 1e-5 * (abs(X) + abs(Y) + abs(x0) + abs(y0))) + 1e-5 * (abs(ex) + abs(ey))
                if abs(dx - ex) > tol or abs(dy - ey) > tol or abs(d - math.hypot(ex, ey)) > 2 * tol:
                    raise Wrong("measure", "%r measured from %r to %r: expected dx = %g, dy = %g" % (
                        self.coords.opts["text"], self.ruler, self.layout(px, py), ex, ey))
                end = self.shown("line")[0].coords[2:]
                if abs(end[0] - X) > 0.01 + 1e-9 * abs(X) or abs(end[1] - Y) > 0.01 + 1e-9 * abs(Y):
                    raise Wrong("ruler", "the ruler ends at %r, the pointer is at %r" % (end, (X, Y)))
            self.res.count("measurements", 2)

    def layout(self, px, py):
        return self.a * self.c.canvasx(px) + self.bx, -self.a * self.c.canvasy(py) + self.by

    def shown(self, *kinds):
        return [self.c.items[i] for i in self.c.order if self.c.items[i].kind in kinds and not self.c.items[i].hidden]

    def box(self):
        """Layout region in the window."""
        w, h = self.c.pixels()
        (x0, y1), (x1, y0) = self.layout(2, 2), self.layout(w - 2, h - 2)
        return x0, y0, x1, y1

    def clamped(self):
        r = self.c.region
        if r is None:
            return False, False
        w, h = self.c.pixels()
        return tuple(o + 2 - a <= 2 or b - (o + n - 2) <= 2 for o, n, a, b in ((self.c.xo, w, r[0], r[2]), (self.c.yo, h, r[1], r[3])))

    # -- the model
    def content(self):
        k = (self.cell, self.depth)
        if k not in self.cache:
            c = self.twin[self.cell]
            pols = c.get_polygons(by_spec=True, depth=self.depth)
            labs = [(l.layer, l.texttype, float(l.position[0]), float(l.position[1]), l.text, l.anchor) for l in c.get_labels(depth=self.depth)]
            keys = set(i for i, v in pols.items() if isinstance(i, tuple) and len(v)) | set(l[:2] for l in labs)
            self.cache[k] = ({i: [numpy.array(p, dtype=float) for p in v] for i, v in pols.items()}, labs, keys)
        return self.cache[k]

    def list_rows(self):
        """(key, icon, text, up, down) from the bottom of the list."""
        l = self.l
        rows = {}
        for i in l.order:
            it = l.items[i]
            if it.kind == "window" and not it.hidden:
                rows.setdefault(round(it.coords[1], 3), []).append((it.coords[0], it.opts["window"]))
        out = []
        for y in sorted(rows, reverse=True):
            ws = [w for _, w in sorted(rows[y], key=lambda t: t[0])]
            t = [w for w in ws if re.fullmatch(r"\s*-?\d+\s*/\s*-?\d+\s*", str(w.opts.get("text", "")))]
            if len(ws) != 4 or len(t) != 1:
                raise Wrong("list", "a row has %d parts" % len(ws))
            a, b = t[0].opts["text"].split("/")
            out.append(((int(a), int(b)),) + tuple(ws))
        return out

    def bitmap(self, w):
        n = str(w).rsplit("/", 1)[-1].rsplit("\\", 1)[-1]
        return 9 if n.startswith("outline") else int(n.split(".")[0])

    def check(self):
        res = self.res
        res.evals += 1
        pols, labs, keys = self.content()
        rows = self.list_rows()
        got = [r[0] for r in rows]
        if len(set(got)) != len(got) or set(got) != keys:
            raise Wrong("list", "layers %r are listed, the cell has %r" % (got, sorted(keys)))
        if self.rows is not None and got != self.rows:
            raise Wrong("order", "the list shows %r, expected %r" % (got, self.rows))
        self.rows = got
        # state, colour and pattern of every row
        tone = {}
        for k, icon, text, up, down in rows:
            fg = text.opts.get("fg")
            tone[k] = fg
            c, p = icon.opts.get("fg"), self.bitmap(icon.opts.get("bitmap"))
            want = self.colors.get(k)
            if want is None:
                want = self.given_c.get(k, self.given_c.get("default"))
                if want is None:
                    want = self.auto.setdefault(("color", k), c)
            if c != want and want != "?":
                raise Wrong("colour", "layer %r is listed in %r, expected %r" % (k, c, want))
            self.colors[k] = c
            want = self.patterns.get(k)
            if want is None:
                want = self.given_p.get(k, self.given_p.get("default"))
                if want is None:
                    want = self.auto.setdefault(("pattern", k), p)
            if p != want and want != "?":
                raise Wrong("pattern", "layer %r is listed with pattern %r, expected %r" % (k, p, want))
            self.patterns[k] = p
        shade = [set(), set()]
        for k in got:
            h = self.hidden.get(k, False if self.known_hidden else None)
            if h is not None:
                shade[h].add(tone[k])
        if len(shade[0]) > 1 or len(shade[1]) > 1 or shade[0] & shade[1]:
            raise Wrong("list-state", "labels %r with hidden %r" % (tone, sorted(k for k in got if self.hidden.get(k))))
        # the picture
        self.learn()
        items = self.shown("polygon", "text")
        a, bx, by = self.a, self.bx, self.by

        def px(p):
            p = numpy.array(p, dtype=float).reshape(-1, 2)
            return numpy.array([(p[:, 0] - bx) / a, (by - p[:, 1]) / a]).T.ravel()
        exp = []
        unknown = [k for k in got if self.hidden.get(k, False if self.known_hidden else None) is None]
        for i, v in pols.items():
            for p in v:
                if isinstance(i, tuple):
                    exp.append(("polygon", i, px(p), self.colors[i], self.patterns[i], None, None))
                else:
                    exp.append(("polygon", i, px(p), "", None, None, None))
                    exp.append(("text", i, px(p.mean(0)), None, None, i, "center"))
        for l, t, x, y, s, anc in labs:
            exp.append(("text", (l, t), px((x, y)), self.colors[(l, t)], None, s, {"o": "center"}.get(NAMES[anc], NAMES[anc])))
        groups = {}
        for n, it in enumerate(items):
            pat = self.bitmap(it.opts["stipple"]) if it.kind == "polygon" and it.opts.get("stipple") else None
            groups.setdefault((it.kind, len(it.coords)), []).append((n, numpy.array(it.coords), it.opts.get("fill"), pat, it.opts.get("text"), it.opts.get("anchor")))
        owner = {}
        vis = {}
        worst = []
        for kind, i, xy, fill, pat, text, anc in exp:
            h = self.hidden.get(i, False if self.known_hidden else None) if isinstance(i, tuple) else False
            hit = None
            tol = 0.05 + 1e-5 * (float(numpy.abs(xy).max()) + (abs(self.ruler[0] - bx) + abs(self.ruler[1] - by)) / a if self.on else float(numpy.abs(xy).max()))
            g = groups.get((kind, xy.size), [])
            near = None
            for q, (n, c, f, p, t, an) in enumerate(g):
                d = float(numpy.abs(c - xy).max())
                if near is None or d < near[0]:
                    near = (d, f, p, t, an)
                if d <= tol and (f == fill or fill is None) and (kind == "text" and t == text and an == anc or kind == "polygon" and p == pat):
                    hit = q
                    break
            if h:
                worst.append((kind, i, xy, fill, pat, text, anc, tol))
                continue
            if hit is None:
                if h is None:
                    vis.setdefault(i, set()).add(False)
                    continue
                raise Wrong("missing", "%s %r of layer %r in %r at %r is not drawn; closest: %r (scale %g, view %r)" % (
                    kind, text or (fill, pat), i, self.cell, [round(float(v), 3) for v in xy[:6]], near, a, self.box()))
            vis.setdefault(i, set()).add(True)
            owner[g[hit][0]] = i
            del g[hit]
        rest = [(k, g) for k, v in groups.items() for g in v]
        if rest:
            (kind, n), g = rest[0]
            raise Wrong("extra", "%d items too many are drawn, such as a %s at %r, fill %r, text %r (hidden: %r)" % (
                len(rest), kind, [round(float(v), 3) for v in g[1][:6]], g[2], g[4], sorted(k for k in got if self.hidden.get(k))))
        for k in unknown:
            if k in vis and len(vis[k]) > 1:
                raise Wrong("layer-state", "layer %r is drawn in part" % (k,))
            self.hidden[k] = vis.get(k, {True}) == {False}
        for h in (False, True):
            for k in unknown:
                if self.hidden[k] == h:
                    shade[h].add(tone[k])
        if len(shade[0]) > 1 or len(shade[1]) > 1 or shade[0] & shade[1]:
            raise Wrong("list-state", "labels %r with hidden %r" % (tone, sorted(k for k in got if self.hidden.get(k))))
        if set(got) and not unknown:
            self.known_hidden = self.known_hidden
        # stacking follows the list (identical pictures cannot be told apart)
        seq = [owner[n] for n in sorted(owner) if isinstance(owner[n], tuple)]
        rank = [got.index(k) for k in seq]
        if rank != sorted(rank) and not self.twins(exp):
            raise Wrong("stacking", "drawn from the bottom: %r; listed: %r" % (list(dict.fromkeys(seq)), got))
        if len(self.shown("line")) != (1 if self.on else 0):
            raise Wrong("ruler", "%d rulers are drawn, measuring: %r" % (len(self.shown("line")), self.on))
        if self.shown("rectangle"):
            raise Wrong("rectangle", "a zoom rectangle is left")
        if self.on != (self.ruler is not None):
            raise Wrong("ruler", "measuring: %r, expected %r" % (self.on, self.ruler is not None))
        res.count("items", len(items))

    def twins(self, exp):
        seen = set()
        for kind, i, xy, fill, pat, text, anc in exp:
            k = (kind, tuple(round(float(v)) for v in xy), fill, pat, text, anc)
            if k in seen:
                return True
            seen.add(k)
        return False

    def extents(self):
        """After a reset the whole cell is in the window."""
        pols, labs, keys = self.content()
        if not any(len(v) for v in pols.values()):
            return
        w, h = self.c.pixels()
        if w < 60 or h < 60:
            return
        p = numpy.vstack([q for v in pols.values() for q in v])
        x0, y0 = p.min(0)
        x1, y1 = p.max(0)
        b = self.box()
        m = 3 * self.a + 1e-5 * max(abs(v) for v in b)
        if x0 < b[0] - m or y0 < b[1] - m or x1 > b[2] + m or y1 > b[3] + m:
            raise Wrong("extents", "the window shows %r, the cell covers %r" % (b, (x0, y0, x1, y1)))
        if max(x1 - x0, y1 - y0) > 1e-5 * max(abs(x0), abs(x1), abs(y0), abs(y1)) and max((x1 - x0) / (b[2] - b[0]), (y1 - y0) / (b[3] - b[1])) < 0.7:
            raise Wrong("extents", "the window shows %r, the cell only covers %r" % (b, (x0, y0, x1, y1)))

    # -- events
    def redraw(self):
        self.rows = None
        self.ruler = None

    def place(self, ev):
        w, h = self.c.pixels()
        return int(ev["x"] * w), int(ev["y"] * h)

    def row(self, ev):
        rows = self.list_rows()
        return rows[ev["row"] % len(rows)] if rows else None

    def home(self, ev, target=None):
        how = ev.get("how", "button")
        if how == "button":
            self.buttons["Extents"].invoke()
        else:
            self.tk.fire(target or self.c, "Key", how)
        self.app.flush()
        self.redraw()

    def do(self, ev):
        """Performs one event; returns what has to be checked."""
        tk, c = self.tk, self.c
        k = ev["k"]
        then = []
        if k == "home":
            self.home(ev)
            then.append("extents")
        elif k == "motion":
            self.motion(*self.place(ev))
        elif k == "click":
            x, y = self.place(ev)
            self.learn()
            at = self.layout(x, y)
            tk.fire(c, "Button", 1, x=x, y=y)
            self.app.flush()
            tk.fire(c, "ButtonRelease", 1, state=0x100, x=x, y=y)
            self.ruler = None if self.ruler is not None else at
        elif k == "double":
            x, y = self.place(ev)
            self.learn()
            at = self.layout(x, y)
            seen = len(self.app.dialogs)
            for rep in (1, 2):
                tk.fire(c, "Button", 1, rep=rep, x=x, y=y)
                tk.fire(c, "ButtonRelease", 1, state=0x100, x=x, y=y)
            self.info(self.app.dialogs[seen:])
            n = len(self.read(x, y))
            self.ruler = at if n == 3 else None
        elif k == "drag":
            self.drag(ev, then)
        elif k in ("wheel", "lwheel"):
            x, y = self.place(ev)
            self.learn()
            at = self.layout(x, y)
            w = c
            if k == "lwheel":
                r = self.row(ev)
                w = self.l if r is None or ev["row"] % 3 == 0 else r[1 + ev["row"] % 4]
            state = {"": 0, "c": 4, "s": 1}[ev["mod"] if k == "wheel" else ""]
            self.wheel(w, ev, x, y, state)
            self.app.flush()
            if state == 4:
                self.learn()
                if not [t for t in self.shown('polygon', 'text', 'line')]:
                    return then
                p = self.layout(x, y)
                for ax in (0, 1):
                    if abs(p[ax] - at[ax]) > 6 * self.a + 1e-5 * abs(at[ax]) and not self.clamped()[ax]:
                        raise Wrong("zoom", "the point under the pointer changed from %r to %r (scale %g)" % (at, p, self.a))
        elif k == "pan":
            x, y = self.place(ev)
            tk.fire(c, "Button", 2, x=x, y=y)
            for dx, dy in ev["to"]:
                self.motion(x + dx, y + dy, 0x200 | (4 if ev["fast"] else 0))
            tk.fire(c, "ButtonRelease", 2, x=x, y=y, state=0x200)
        elif k in ("in", "out"):
            if k == "in" and self.too_deep():
                return then
            self.buttons["In" if k == "in" else "Out"].invoke()
        elif k == "cell":
            self.menu.choose(self.menu.values[ev["n"] % len(self.menu.values)])
            self.app.flush()
            self.cell = self.menu.variable.get()
            self.redraw()
            then.append("extents")
        elif k == "depth":
            old = self.depth
            if ev["how"] == "step":
                try:
                    v = float(self.spin.opts["textvariable"].raw)
                except ValueError:
                    v = -1.0
                new = int(min(128, max(-1, v + (1 if ev["up"] else -1))))
                self.spin.step(ev["up"])
            else:
                self.spin.type(ev["text"])
                try:
                    new = int(float(ev["text"]))
                except (ValueError, OverflowError):
                    new = old
                tk.fire(self.spin, "FocusOut")
            shown = self.spin.opts["textvariable"].get()
            if shown != new and not ev.get("fault"):
                raise Wrong("depth", "the level shown is %r, expected %r" % (shown, new))
            self.depth = new
            if new != old:
                self.redraw()
        elif k == "toggle":
            r = self.row(ev)
            if r:
                h = self.hidden.get(r[0], False)
                tk.fire(r[2], "Button", 1, x=3, y=3)
                self.hidden[r[0]] = not h
        elif k == "others":
            r = self.row(ev)
            if r:
                rows = [x[0] for x in self.list_rows()]
                others = [x for x in rows if x != r[0]]
                before = set(self.hidden.get(x, False) for x in others)
                tk.fire(r[2], "Button", ev["btn"], x=3, y=3)
                if len(before) == 1:
                    for x in others:
                        self.hidden[x] = not list(before)[0]
                elif others:
                    for x in others:
                        self.hidden[x] = None
                    self.check()
                    after = set(self.hidden[x] for x in others)
                    if len(after) > 1:
                        raise Wrong("others", "of the other layers, hidden are now %r" % [x for x in others if self.hidden[x]])
        elif k in ("raise", "lower"):
            r = self.row(ev)
            if r:
                i = self.rows.index(r[0])
                j = i + (1 if k == "raise" else -1)
                tk.fire(r[3 if k == "raise" else 4], "Button", 1, x=3, y=3)
                if 0 <= j < len(self.rows):
                    self.rows[i], self.rows[j] = self.rows[j], self.rows[i]
        elif k == "color":
            r = self.row(ev)
            if r:
                self.app.asks[:] = [ev["c"]]
                self.app.asking = lambda app: self.nested(ev, self.root, then)
                tk.fire(r[1], "Button", 1, x=3, y=3)
                self.app.asking = None
                if ev["c"] is not None:
                    self.colors[r[0]] = ev["c"]
        elif k == "pattern":
            r = self.row(ev)
            if r:
                def modal(app, dlg):
                    self.nested(ev, dlg, then)
                    bs = dlg.children_of(tk.Button)
                    pick = [b for b in bs if b.opts.get("bitmap") and self.bitmap(b.opts["bitmap"]) == ev["p"]]
                    other = [b for b in bs if not b.opts.get("bitmap")]
                    if ev["p"] is None:
                        other[0].invoke() if other else dlg.destroy()
                    elif len(pick) == 1:
                        pick[0].invoke()
                    else:
                        raise Wrong("pattern", "%d choices of pattern %r" % (len(pick), ev["p"]))
                self.app.modal = modal
                tk.fire(r[1], "Button", ev["btn"], x=3, y=3)
                self.app.modal = None
                if ev["p"] is not None:
                    self.patterns[r[0]] = ev["p"]
        elif k == "filter":
            def modal(app, dlg):
                e = dlg.children_of(tk.Entry)[0]
                if ev["text"] is not None:
                    e.type(ev["text"])
                self.typed = e.get()
                bs = {b.opts.get("text"): b for b in dlg.children_of(tk.Button)}
                {"ok": bs["OK"].invoke, "return": lambda: tk.fire(dlg, "Key", "Return"), "cancel": bs["Cancel"].invoke,
                 "escape": lambda: tk.fire(dlg, "Key", "Escape")}[ev["end"]]()
                if dlg.alive:
                    raise Wrong("filter", "the dialog stays")
            self.app.modal = modal
            rows = [x[0] for x in self.list_rows()]
            self.buttons["Filter..."].invoke()
            self.app.modal = None
            f = wanted(self.typed) if ev["end"] in ("ok", "return") else None
            if f is not None:
                self.redraw()
                self.known_hidden = False     # of layers that are not listed
                self.hidden = {x: not f(*x) for x in rows}
                then.append("extents")
        elif k == "resize":
            c.resize(ev["w"], ev["h"])
        self.app.flush()
        return then

    def too_deep(self):
        self.learn()
        pols, labs, keys = self.content()
        m = max([1e-300] + [float(numpy.abs(p).max()) for v in pols.values() for p in v] + [abs(v) for l in labs for v in l[2:4]])
        return m / self.a > 2e6

    def nested(self, ev, target, then):
        """What happens while a dialog is open."""
        if ev.get("inside") == "home":
            self.home({"how": "a"}, target)
            then.append("extents")
        elif ev.get("inside"):
            self.tk.fire(target, "Key", ev["inside"])

    def wheel(self, w, ev, x, y, state):
        if state == 4 and ev["up"] and self.too_deep():
            ev = dict(ev, up=False)
        if ev["x11"]:
            self.tk.fire(w, "Button", 4 if ev["up"] else 5, state=state, x=x, y=y)
        else:
            self.tk.fire(w, "MouseWheel", state=state, x=x, y=y, delta=120 if ev["up"] else -120)

    def drag(self, ev, then):
        tk, c = self.tk, self.c
        self.learn()
        w, h = c.pixels()
        x, y = self.place(ev)
        p0 = self.layout(x, y)
        deep = self.too_deep()
        tk.fire(c, "Button", 1, x=x, y=y)
        for fx, fy, wh in ev["to"]:
            if wh and not deep:
                # the pointer stays while the wheel turns
                self.wheel(c, {"up": wh > 0, "x11": ev["x11"]}, x, y, 0x100 | 4)
                self.app.flush()
                continue
            x, y = int(fx * w), int(fy * h)
            self.motion(x, y, 0x100)
            self.app.flush()
            r = self.shown("rectangle")
            if len(r) != 1:
                raise Wrong("rectangle", "%d rectangles while dragging" % len(r))
        last = self.shown("rectangle")
        self.learn()
        tk.fire(c, "ButtonRelease", 1, state=0x100, x=x, y=y)
        self.app.flush()
        if not last:
            # no motion at all: a click
            self.ruler = None if self.ruler is not None else p0
            return
        co = last[-1].coords
        old = (self.a, self.bx, self.by)
        self.learn()
        a, bx, by = old
        p1 = (a * co[2] + bx, -a * co[3] + by)
        first = (a * co[0] + bx, -a * co[1] + by)
        x0, y0, x1, y1 = min(p0[0], p1[0]), min(p0[1], p1[1]), max(p0[0], p1[0]), max(p0[1], p1[1])
        tol = 1.5 * a + 1e-5 * max(abs(p0[0]), abs(p0[1]))
        if min(abs(first[0] - p0[0]), abs(p1[0] - p0[0])) > tol or min(abs(first[1] - p0[1]), abs(p1[1] - p0[1])) > tol:
            raise Wrong("rectangle", "the rectangle spans %r to %r, the drag began at %r" % (first, p1, p0))
        if co[0] == co[2] or co[1] == co[3] or not self.shown("polygon", "text", "line"):
            return
        b = self.box()
        m = 8 * self.a + 1e-5 * max(abs(v) for v in b)
        cl = self.clamped()
        for ax in (0, 1):
            lo, hi = ((x0, x1), (y0, y1))[ax]
            if not cl[ax] and (lo < b[ax] - m or hi > b[2 + ax] + m):
                raise Wrong("zoom-rectangle", "%r was selected, the window shows %r" % ((x0, y0, x1, y1), b))
        if min(w, h) > 60 and not 0.9 < max((x1 - x0) / (b[2] - b[0]), (y1 - y0) / (b[3] - b[1])) < 1.1:
            raise Wrong("zoom-rectangle", "%r was selected, the window shows %r" % ((x0, y0, x1, y1), b))

    def info(self, shown):
        """The details of an element are those of one that is drawn."""
        for kind, title, text in shown:
            m = re.fullmatch(r"[^:]*:\s*(.*)\n[^:]*:\s*(\d+)\n[^:]*:\s*\((.*?), (.*?)\) - \((.*?), (.*?)\)\s*", text, re.S)
            if not m:
                continue
            b = [float(v) for v in m.groups()[2:]]
            ok = False
            pols = self.content()[0]
            for k, v in pols.items():
                if str(k) != m.group(1) or isinstance(k, tuple) and self.hidden.get(k):
                    continue
                for p in v:
                    q = p.min(0).tolist() + p.max(0).tolist()
                    if len(p) == int(m.group(2)) and all(abs(s - t) <= 4 * self.a + 1e-4 * max(map(abs, q)) for s, t in zip(q, b)):
                        ok = True
            if not ok:
                raise Wrong("details", "%r describes no visible element" % text)
            self.res.count("details")

    # -- the session
    def run(self, app):
        self.find(app)
        self.spin.opts["textvariable"].get()
        self.check()
        self.extents()
        for n, ev in enumerate(self.view["events"]):
            self.at = (n, ev)
            self.log.append(ev["k"])
            bad = None
            then = []
            fault = ev.get("fault")
            if fault and fault[0] == "callback":
                self.hooks.left = fault[1]
            try:
                if fault and fault[0] == "interrupt":
                    with steps.Steps(at=fault[1], exc=EXC[fault[2]]) as st:
                        then = self.do(ev)
                    if st.fired:
                        bad = fault[2]
                else:
                    then = self.do(ev)
            except Injected:
                bad = "callback"
            except (KeyboardInterrupt, MemoryError):
                if not fault or fault[0] != "interrupt":
                    raise
                bad = fault[2]
            if bad:
                self.res.add({"failing-" + bad: 1})
                self.recover(ev)
                then = ["extents"]
            self.hooks.left = 0
            self.check()
            for t in then:
                getattr(self, t)()
            self.res.count("events")
            self.res.see(ev["k"], self.c.xo, self.c.yo, round(math.log(self.a), 3), len(self.c.order))

    def recover(self, ev):
        """After a failed event, a reset of the view puts everything right."""
        self.app.modal = self.app.asking = None
        self.app.asks[:] = []
        for w in self.app.widgets:
            if isinstance(w, self.tk.Toplevel) and w.alive:
                w.destroy()
        if ev["k"] in ("toggle", "others", "filter"):
            self.known_hidden = self.known_hidden and ev["k"] != "filter"
            for k in list(self.hidden) + list(self.content()[2]):
                self.hidden[k] = None
        if ev["k"] == "color":
            self.colors = {k: "?" for k in self.colors}
        if ev["k"] == "pattern":
            self.patterns = {k: "?" for k in self.patterns}
        for _ in range(6):
            try:
                self.app.flush()
                self.tk.fire(self.spin, "FocusOut")
                self.home({})
                break
            except Injected:
                pass
        self.cell = self.menu.variable.get()
        self.depth = self.spin.opts["textvariable"].get()
        self.redraw()


class Hooks(S.Hooks):
    def __init__(self):
        S.Hooks.__init__(self, self.maybe)
        self.left = 0

    def maybe(self, name):
        if self.left > 0:
            self.left -= 1
            raise Injected(name)


class C16(Check):
    id = "C16"
    title = "the viewer's picture and state"
    quick = (12000, 60.0)
    thorough = (200000, 700.0)
    real = "gdspy.viewer, queries of cells"
    stub = "tkinter (simulated display, events and dialogs), random offsets of stipples"
    key_measure = "distinct (events of a session in order, number of layers, faults)"
    case_measure = "a case is one session of events checked after each; non-trivial if it has at least three events and two layers; distinct by events and layout"
    assumptions = ["the simulated display follows Tk's documented geometry; class bindings and native dialogs are reduced to their outcomes",
                   "text metrics are nominal"]

    def layers(self, spec, rng):
        n, m = rng.choice([(1, 1), (2, 1), (3, 2), (4, 3), (9, 2)])
        for c in spec["cells"]:
            for e in c["els"]:
                for k in ("l", "d", "t"):
                    if k not in e or e["k"] == "text" and k == "t":
                        continue
                    q = n if k == "l" else m
                    if isinstance(e[k], list):
                        e[k] = [v % q for v in e[k]]
                    elif isinstance(e[k], int):
                        e[k] = e[k] % q

    def event(self, rng, specs):
        k = rng.choice(["motion", "click", "click", "double", "drag", "drag", "wheel", "wheel", "wheel", "lwheel", "pan", "home", "home", "in", "out", "cell", "cell",
                        "depth", "depth", "toggle", "toggle", "toggle", "others", "others", "raise", "lower", "raise", "lower", "color", "pattern", "filter", "resize"])
        e = {"k": k}
        if k in ("motion", "click", "double", "drag", "wheel", "lwheel", "pan"):
            e["x"], e["y"] = round(rng.random(), 3), round(rng.random(), 3)
        if k in ("wheel", "lwheel"):
            e.update(mod=rng.choice(["", "c", "c", "c", "s"]), up=rng.random() < 0.6, x11=rng.random() < 0.5)
        if k in ("toggle", "others", "raise", "lower", "color", "pattern", "lwheel"):
            e["row"] = rng.randrange(12)
        if k in ("others", "pattern"):
            e["btn"] = rng.choice([2, 3])
        if k == "drag":
            e["to"] = [[round(rng.random(), 3), round(rng.random(), 3), 0] for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.25:
                e["to"].insert(rng.randint(1, len(e["to"])), [0, 0, rng.choice([1, -1])])
                e["to"].append([round(rng.random(), 3), round(rng.random(), 3), 0])
            if rng.random() < 0.1:
                e["to"] = [[e["x"], round(rng.random(), 3), 0]]
            e["x11"] = rng.random() < 0.5
        if k == "pan":
            e.update(to=[[rng.randint(-80, 80), rng.randint(-80, 80)] for _ in range(rng.randint(1, 3))], fast=rng.random() < 0.3)
        if k == "home":
            e["how"] = rng.choice(["button", "Home", "a", "A"])
        if k == "cell":
            e["n"] = rng.randrange(8)
        if k == "depth":
            if rng.random() < 0.6:
                e.update(how="step", up=rng.random() < 0.6)
            else:
                e.update(how="type", text=rng.choice(["0", "1", "2", "-1", "-1", "5", "", "x", "1.7", "-3", "1e1", " 2", "nan", "--"]))
        if k == "color":
            e.update(c=rng.choice([None, color(rng), color(rng)]), inside=rng.choice([None, None, "home", "Return"]))
        if k == "pattern":
            e.update(p=rng.choice([None] + list(range(10)) + [9, 9]), inside=rng.choice([None, None, "home", "x"]))
        if k == "filter":
            e.update(text=rng.choice([None, gen_filter(rng), gen_filter(rng), gen_filter(rng)]), end=rng.choice(["ok", "ok", "return", "cancel", "escape"]))
        if k == "resize":
            e.update(w=rng.choice([1, 3, 4, 5, 60, 200, 400, 804, 1500]), h=rng.choice([1, 4, 5, 60, 200, 604, 1200]))
        if k in ("cell", "depth", "home", "filter") and rng.random() < 0.15:
            e["fault"] = ["callback", rng.choice([1, 1, 2, 3])]
        elif rng.random() < 0.06:
            e["fault"] = ["interrupt", int(2 ** rng.uniform(0, 8)), rng.choice(sorted(EXC))]
        return e

    def plan(self, rng):
        o = S.Opt(hugearr=0.0, big=0, far=0.01, cells=(1, 4), els=(1, 6), missing=0, cr=([1, 2], [1, 2, 3]), mags=[None, None, 1.0, 2.0, 0.5, 1.37], oneof=0.0)
        spec = S.gen(rng, o)
        self.layers(spec, rng)
        p = {"spec": spec, "seed": rng.randrange(2 ** 32), "viewers": []}
        if rng.random() < 0.25:
            o.kinds = ["flex", "robust", "sref"]
            o.els = (1, 3)
            spec = p["spec"] = S.gen(rng, o)
            self.layers(spec, rng)
        if rng.random() < 0.05:
            spec["cells"][0]["els"].append({"k": "poly", "p": [[7, 3], [7, 3], [7, 3]], "l": 1, "d": 0})
        key = lambda: [rng.randrange(5), rng.randrange(3)]
        for _ in range(rng.choice([1, 1, 1, 2])):
            a = {}
            if rng.random() < 0.5:
                a["hidden_types"] = [key() for _ in range(rng.randint(1, 5))]
                if rng.random() < 0.3:
                    a["hidden_types"].append(a["hidden_types"][0])
            if rng.random() < 0.6:
                a["depth"] = rng.choice([-1, 0, 1, 2, 3])
            if rng.random() < 0.4:
                a["color"] = [[rng.choice(["default", key(), key()]), color(rng)] for _ in range(rng.randint(1, 3))]
            if rng.random() < 0.4:
                a["pattern"] = [[rng.choice(["default", key(), key()]), rng.randrange(10)] for _ in range(rng.randint(1, 3))]
            if rng.random() < 0.4:
                a["background"] = rng.choice(["#ffffff", "#000000", "#808080", "#55AA60", color(rng)])
            if rng.random() < 0.4:
                a["width"], a["height"] = rng.choice([50, 300, 801, 1600]), rng.choice([50, 200, 600, 1000])
            p["viewers"].append({"args": a, "mode": rng.choice(["lib", "lib", "lib", "cells", "one", "both", "gen"]),
                                 "events": [self.event(rng, None) for _ in range(rng.choice([0, 3, 6, 12, 25]))]})
        return p

    def shrinks(self, plan):
        for q in generic_shrinks(plan, [("viewers",), ("viewers", "*", "events"), ("viewers", "*", "events", "*", "to")] + util.spec_lists()):
            S.fix(q["spec"])
            if q["spec"]["cells"]:
                yield q
        for i, v in enumerate(plan["viewers"]):
            for k in list(v["args"]):
                q = clone(plan)
                del q["viewers"][i]["args"][k]
                yield q
            for j, e in enumerate(v["events"]):
                if "fault" in e:
                    q = clone(plan)
                    del q["viewers"][i]["events"][j]["fault"]
                    yield q
        for q in util.simplify_elements(plan):
            yield q

    def run(self, plan, res):
        gd = boot.gdspy
        spec = plan["spec"]
        hooks = Hooks()
        twin = S.build(gd, spec)
        lib, cells = S.build(gd, spec, hooks)
        try:
            for c in twin[1].values():
                c.get_polygons(True)
        except Exception:
            res.count("layouts-without-geometry")
            return
        before = observe.library(S.build(gd, spec)[0])
        auto = {}
        if any(e.get("fault", [""])[0] == "interrupt" for v in plan["viewers"] for e in v["events"]):
            steps.install(fine=True)
        for v in plan["viewers"]:
            args = {}
            for k, x in v["args"].items():
                if k == "hidden_types":
                    args[k] = [tuple(y) for y in x]
                elif k in ("color", "pattern"):
                    args[k] = {Session.key(a): b for a, b in x}
                else:
                    args[k] = x
            copy = {k: (list(x) if isinstance(x, list) else dict(x) if isinstance(x, dict) else x) for k, x in args.items()}
            names = list(cells)
            half = [cells[n] for n in names[:1 + len(names) // 2]]
            m = v["mode"]
            if m == "lib":
                src, shows = {"library": lib}, names
            elif m == "cells":
                src, shows = {"cells": half}, [c.name for c in half]
            elif m == "one":
                src, shows = {"cells": cells[names[-1]]}, names[-1:]
            elif m == "both":
                src, shows = {"library": lib, "cells": half}, names
            else:
                src, shows = {"cells": (c for c in half)}, [c.name for c in half]
            ses = Session(self, plan, v, twin, hooks, res, auto)
            mods = tkstub.install(ses.run)
            saved = {k: sys.modules.get(k) for k in mods}
            sys.modules.update(mods)
            sys.modules.pop("gdspy.viewer", None)
            numpy.random.seed(plan["seed"])
            try:
                mod = importlib.import_module("gdspy.viewer")
                mod.LayoutViewer(**src, **args)
                if set(ses.menu.values) != set(shows):
                    raise Wrong("cells", "%r can be selected, expected %r" % (ses.menu.values, shows))
            except Wrong as e:
                res.violate(e.kind, "%s (event %r of viewer %r %r)" % (e.detail, getattr(ses, "at", "start"), v["args"], ses.log[-6:]))
                return
            finally:
                for k, x in saved.items():
                    if x is None:
                        sys.modules.pop(k, None)
                    else:
                        sys.modules[k] = x
            d = observe.diff(copy, args)
            if d or copy != args:
                res.violate("arguments", "arguments of the viewer changed: %s" % (d,))
                return
            hooks.left = 0
            n = len(ses.rows or [])
            res.key(ses.log, n, [e.get("fault", [None])[0] for e in v["events"]])
            if len(ses.log) >= 3 and n >= 2:
                res.case(ses.log, spec)
        d = observe.diff(before, observe.library(lib))
        if d:
            res.violate("layout-changed", "viewing changed the layout: %s" % d)
        res.samples.append({"viewers": [{"args": v["args"], "events": [e["k"] for e in v["events"]]} for v in plan["viewers"]]})


CHECK = C16()
