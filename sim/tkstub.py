"""A simulated Tk: widgets without a screen, driven by a script of events.

Stands in for `tkinter`, `tkinter.messagebox` and `tkinter.colorchooser` when
gdspy.viewer is loaded.  Canvas geometry (origins, scroll regions, stacking,
scaling, bounding boxes) and event bindings follow the Tk documentation; what
the code under test does not depend on accepts anything.
"""
import math
import re
import types

N, S, E, W = "n", "s", "e", "w"
NW, NE, SW, SE, NS, EW, NSEW, CENTER = "nw", "ne", "sw", "se", "ns", "ew", "nsew", "center"
CONST = dict(N=N, S=S, E=E, W=W, NW=NW, NE=NE, SW=SW, SE=SE, NS=NS, EW=EW, NSEW=NSEW, CENTER=CENTER, ALL="all", END="end", X="x", Y="y", BOTH="both",
             LEFT="left", RIGHT="right", TOP="top", BOTTOM="bottom", HORIZONTAL="horizontal", VERTICAL="vertical", SCROLL="scroll", UNITS="units",
             PAGES="pages", MOVETO="moveto", NORMAL="normal", HIDDEN="hidden", DISABLED="disabled", YES=1, NO=0, TRUE=1, FALSE=0, ON=1, OFF=0,
             FIRST="first", LAST="last", INSERT="insert", NONE="none", RAISED="raised", SUNKEN="sunken", FLAT="flat", RIDGE="ridge", GROOVE="groove",
             ROUND="round", BEVEL="bevel", MITER="miter", ACTIVE="active", BROWSE="browse", SINGLE="single", WORD="word", CHAR="char",
             TkVersion=8.6, TclVersion=8.6, EXCEPTION=8, READABLE=2, WRITABLE=4)


class TclError(Exception):
    pass


def number(v):
    if isinstance(v, str):
        v = float(v)
    v = float(v)
    if not math.isfinite(v):
        raise TclError("bad screen distance %r" % v)
    return v


class App(object):
    """The interpreter of one simulated display."""

    def __init__(self, driver=None):
        self.driver = driver         # called as driver(app) by mainloop
        self.widgets = []
        self.all = {}                # bind_all
        self.dialogs = []            # what messagebox & co. showed
        self.asks = []               # answers of the color chooser
        self.idle = []
        self.modal = None            # called by wait_window(app, window)
        self.asking = None           # called while the color chooser is open
        self.root = None
        self.mapped = False

    def flush(self):
        todo, self.idle = self.idle, []
        for f in todo:
            f()


app = App()


class Event(object):
    def __init__(self, **k):
        self.num = "??"
        self.delta = 0
        self.x = self.y = 0
        self.x_root = self.y_root = 0
        self.state = 0
        self.keysym = "??"
        self.char = "??"
        self.width = self.height = "??"
        self.time = 0
        self.serial = 0
        self.type = "??"
        self.widget = None
        self.__dict__.update(k)


MODS = {"Control": 4, "Shift": 1, "Lock": 2, "Alt": 8, "Mod1": 8, "Meta": 8, "Command": 8, "B1": 0x100, "Button1": 0x100, "B2": 0x200, "Button2": 0x200,
        "B3": 0x400, "Button3": 0x400, "Double": "double", "Triple": "triple", "Any": 0}


def parse(seq):
    """'<Control-Double-Button-1>' -> (type, detail, state mask, repeat)"""
    m = re.fullmatch(r"<([^<>]+)>", seq)
    if not m:
        if len(seq) == 1:
            return "Key", seq, 0, 1
        raise TclError("bad event %r" % seq)
    parts = m.group(1).split("-")
    mask, rep = 0, 1
    while len(parts) > 1 and parts[0] in MODS:
        v = MODS[parts.pop(0)]
        if v == "double":
            rep = 2
        elif v == "triple":
            rep = 3
        else:
            mask |= v
    t = parts[0]
    detail = parts[1] if len(parts) > 1 else None
    if t.isdigit():
        t, detail = "Button", t
    t = {"ButtonPress": "Button", "KeyPress": "Key"}.get(t, t)
    known = ("Button", "ButtonRelease", "Motion", "MouseWheel", "Key", "KeyRelease", "FocusOut", "FocusIn", "Configure", "Enter", "Leave", "Map", "Unmap",
             "Visibility", "Destroy", "Expose", "Activate", "Deactivate")
    if t not in known:
        t, detail = "Key", t
    return t, detail, mask, rep


def best(bindings, t, detail, state, rep):
    """The most specific binding of one tag."""
    top, out = None, None
    for (bt, bd, bm, br), fs in bindings.items():
        if bt != t or (bd is not None and bd != detail) or state & bm != bm or br > rep:
            continue
        rank = (bd is not None, br, bin(bm).count("1"))
        if top is None or rank >= top:
            top, out = rank, fs
    return out or []


NOOP = re.compile(r"(wm_|winfo_|grid|pack|place|focus|grab|selection|clipboard|tk_|option_|event_|image_|font_).*|title|resizable|geometry|minsize|maxsize|"
                  "protocol|transient|iconbitmap|iconname|iconphoto|attributes|withdraw|deiconify|iconify|state|overrideredirect|lift|lower|tkraise|"
                  "rowconfigure|columnconfigure|columnconfig|rowconfig|propagate|slaves|forget|info|wait_visibility|wait_variable|bell|select_range|"
                  "icursor|index|insert|invoke|flash|bindtags|bind_class|after_cancel|register|nametowidget|see|xview|yview|delete|select|deselect|"
                  "activate|identify|fraction|delta|validate|size|location|bbox")


class Misc(object):
    kind = "widget"

    def __init__(self, master=None, cnf=None, **kw):
        if master is None and not isinstance(self, (Tk, Toplevel)):
            if app.root is None:
                Tk()
            master = app.root
        elif master is None and isinstance(self, Toplevel):
            if app.root is None:
                Tk()
            master = app.root
        self.master = master
        self.tk = app
        self.opts = {}
        self.children_ = []
        self.bindings = {}
        self.alive = True
        if master is not None and isinstance(master, Misc):
            master.children_.append(self)
        self.app = app
        app.widgets.append(self)
        self.configure(cnf, **kw)

    # anything else exists and does nothing
    def __getattr__(self, name):
        if not NOOP.fullmatch(name):
            raise AttributeError(name)
        return lambda *a, **k: None

    def check(self):
        if not self.alive:
            raise TclError('invalid command name "%s"' % self.kind)

    def configure(self, cnf=None, **kw):
        d = dict(cnf or {})
        d.update(kw)
        if "background" in d:
            d["bg"] = d.pop("background")
        if "foreground" in d:
            d["fg"] = d.pop("foreground")
        self.opts.update(d)

    config = configure

    def cget(self, key):
        key = {"background": "bg", "foreground": "fg"}.get(key, key)
        v = self.opts.get(key, "")
        return v if isinstance(v, str) else str(v)

    __getitem__ = cget

    def __setitem__(self, key, value):
        self.configure({key: value})

    def keys(self):
        return list(self.opts)

    def bind(self, seq=None, func=None, add=None):
        self._bind(self.bindings, seq, func, add)
        return "f"

    def bind_all(self, seq=None, func=None, add=None):
        self._bind(app.all, seq, func, add)
        return "f"

    def _bind(self, where, seq, func, add):
        if func is None:
            return
        k = parse(seq)
        if not add:
            where[k] = []
        where.setdefault(k, []).append(func)

    def unbind(self, seq, funcid=None):
        self.bindings.pop(parse(seq), None)

    def unbind_all(self, seq):
        app.all.pop(parse(seq), None)

    def destroy(self):
        for c in list(self.children_):
            c.destroy()
        self.alive = False
        if isinstance(self.master, Misc) and self in self.master.children_:
            self.master.children_.remove(self)

    def winfo_children(self):
        return list(self.children_)

    def winfo_exists(self):
        return int(self.alive)

    def winfo_toplevel(self):
        w = self
        while w.master is not None and not isinstance(w, (Tk, Toplevel)):
            w = w.master
        return w

    def winfo_reqwidth(self):
        t = str(self.opts.get("text", ""))
        return 16 + 7 * len(t)

    def winfo_reqheight(self):
        return 18

    def winfo_width(self):
        return 100 if app.mapped else 1

    def winfo_height(self):
        return 20 if app.mapped else 1

    def update(self):
        app.mapped = True
        app.flush()

    def update_idletasks(self):
        app.flush()

    def after(self, ms, func=None, *args):
        if func is not None:
            app.idle.append(lambda: func(*args))
        return "after"

    after_idle = lambda self, func, *args: self.after(0, func, *args)

    def mainloop(self, n=0):
        app.mapped = True
        app.flush()
        if app.driver is not None:
            app.driver(app)

    def wait_window(self, window=None):
        if app.modal is not None:
            app.modal(app, window or self)

    def quit(self):
        pass

    def nametowidget(self, n):
        return n

    def children_of(self, kind):
        out = []
        for c in self.children_:
            if isinstance(c, kind):
                out.append(c)
            out.extend(c.children_of(kind))
        return out

    @property
    def children(self):
        return {str(i): c for i, c in enumerate(self.children_)}


class Wm(object):
    pass


class Tk(Misc, Wm):
    kind = "tk"

    def __init__(self, *a, **k):
        Misc.__init__(self, None)
        app.root = self


class Toplevel(Misc, Wm):
    kind = "toplevel"


class Frame(Misc):
    kind = "frame"


class LabelFrame(Frame):
    pass


class Label(Misc):
    kind = "label"


class Scrollbar(Misc):
    kind = "scrollbar"

    def __init__(self, *a, **k):
        self.lo, self.hi = 0.0, 1.0
        Misc.__init__(self, *a, **k)

    def set(self, lo, hi):
        self.lo, self.hi = float(lo), float(hi)

    def get(self):
        return self.lo, self.hi


class Button(Misc):
    kind = "button"

    def invoke(self):
        c = self.opts.get("command")
        return c() if c else None


class Checkbutton(Button):
    pass


class Variable(object):
    default = ""

    def __init__(self, master=None, value=None, name=None):
        self.traces = []
        self.raw = self.default if value is None else value
        self.name = name or "PY_VAR"

    def set(self, value):
        self.raw = value
        for mode, f in list(self.traces):
            if mode in ("w", "write"):
                f(self.name, "", "w")

    initialize = set

    def get(self):
        return self.raw

    def trace_variable(self, mode, callback):
        self.traces.append((mode, callback))
        return "trace"

    trace = trace_variable

    def trace_add(self, mode, callback):
        for m in ([mode] if isinstance(mode, str) else mode):
            self.traces.append((m, callback))
        return "trace"


class StringVar(Variable):
    def get(self):
        return str(self.raw)


class IntVar(Variable):
    default = 0

    def get(self):
        try:
            if isinstance(self.raw, str):
                s = self.raw.strip()
                try:
                    return int(s, 0)
                except ValueError:
                    return int(float(s))
            return int(self.raw)
        except (ValueError, OverflowError):
            raise TclError('expected floating-point number but got "%s"' % self.raw)


class DoubleVar(Variable):
    default = 0.0

    def get(self):
        try:
            return float(self.raw)
        except ValueError:
            raise TclError('expected floating-point number but got "%s"' % self.raw)


class BooleanVar(Variable):
    default = False

    def get(self):
        return bool(self.raw)


class OptionMenu(Misc):
    kind = "menu"

    def __init__(self, master, variable, value, *values, **kw):
        self.variable = variable
        self.values = (value,) + values
        self.command = kw.pop("command", None)
        Misc.__init__(self, master, **kw)

    def choose(self, v):
        self.variable.set(v)
        if self.command:
            self.command(v)


class Entry(Misc):
    kind = "entry"

    def type(self, text):
        self.opts["textvariable"].set(text)

    def get(self):
        v = self.opts.get("textvariable")
        return v.raw if v is not None else ""


class Spinbox(Entry):
    kind = "spinbox"

    def step(self, up):
        """An arrow was pressed."""
        var = self.opts["textvariable"]
        lo, hi, inc = (float(self.opts.get(k, d)) for k, d in (("from_", 0), ("to", 0), ("increment", 1)))
        try:
            v = float(var.raw)
        except (TypeError, ValueError):
            v = lo
        v = min(hi, max(lo, v + (inc if up else -inc)))
        var.set("%g" % v)
        if self.opts.get("command"):
            self.opts["command"]()


class Item(object):
    def __init__(self, kind, coords, opts):
        self.kind, self.coords, self.opts = kind, coords, opts
        t = opts.pop("tags", opts.pop("tag", ()))
        if isinstance(t, str):
            t = tuple(t.split())
        self.tags = [str(x).replace(" ", "\\ ") if False else str(x) for x in t]
        self.opts.setdefault("state", "")

    @property
    def hidden(self):
        return self.opts.get("state") == "hidden"


class Canvas(Misc):
    kind = "canvas"
    inset = 2

    def __init__(self, master=None, cnf=None, **kw):
        self.items = {}
        self.order = []
        self.next = 1
        self.xo = self.yo = 0
        self.region = None
        self.size = None
        self.mark = (0, 0, 0, 0)
        Misc.__init__(self, master, cnf, **kw)
        self.xo = self.yo = -self.inset

    # -- options and geometry
    def configure(self, cnf=None, **kw):
        d = dict(cnf or {})
        d.update(kw)
        Misc.configure(self, d)
        if "scrollregion" in d:
            r = d["scrollregion"]
            if isinstance(r, str):
                r = r.split()
            if not r:
                self.region = None
            else:
                if len(r) != 4:
                    raise TclError("bad scrollRegion")
                self.region = tuple(int(math.floor(number(v) + 0.5)) for v in r)
            self.origin(self.xo, self.yo)
        self.scrollbars()

    config = configure

    def pixels(self):
        if self.size is not None:
            return self.size
        return int(float(self.opts.get("width", 100))) + 2 * self.inset, int(float(self.opts.get("height", 100))) + 2 * self.inset

    def resize(self, w, h):
        self.size = (max(1, int(w)), max(1, int(h)))
        self.origin(self.xo, self.yo)
        self.scrollbars()

    def winfo_width(self):
        return self.pixels()[0] if app.mapped else 1

    def winfo_height(self):
        return self.pixels()[1] if app.mapped else 1

    def origin(self, x, y):
        if self.region is not None:
            w, h = self.pixels()
            out = []
            for o, a, b, size in ((x, self.region[0], self.region[2], w), (y, self.region[1], self.region[3], h)):
                left = o + self.inset - a
                right = b - (o + size - self.inset)
                if left < 0 and right > 0:
                    o += min(right, -left)
                elif right < 0 and left > 0:
                    o -= min(left, -right)
                out.append(o)
            x, y = out
        self.xo, self.yo = int(x), int(y)
        self.scrollbars()

    def scrollbars(self):
        if not self.opts.get("xscrollcommand") and not self.opts.get("yscrollcommand"):
            return

        def tell():
            w, h = self.pixels()
            r = self.region or (self.xo + self.inset, self.yo + self.inset, self.xo + w - self.inset, self.yo + h - self.inset)
            for o, a, b, size, c in ((self.xo, r[0], r[2], w, "xscrollcommand"), (self.yo, r[1], r[3], h, "yscrollcommand")):
                f = self.opts.get(c)
                if f:
                    n = float(b - a) or 1.0
                    lo = min(1.0, max(0.0, (o + self.inset - a) / n))
                    hi = min(1.0, max(lo, (o + size - self.inset - a) / n))
                    f(lo, hi)
        app.idle.append(tell)

    def view(self, axis, args):
        w, h = self.pixels()
        size = (w, h)[axis]
        r = self.region or (0, 0, 0, 0)
        a, b = (r[0], r[2]) if axis == 0 else (r[1], r[3])
        o = (self.xo, self.yo)[axis]
        if not args:
            n = float(b - a) or 1.0
            return (o + self.inset - a) / n, (o + size - self.inset - a) / n
        if args[0] == "moveto":
            o = a - self.inset + int(math.floor(number(args[1]) * (b - a) + 0.5))
        elif args[0] == "scroll":
            n = int(args[1])
            inc = self.opts.get(("xscrollincrement", "yscrollincrement")[axis], 0)
            inc = int(float(inc or 0))
            if args[2].startswith("unit"):
                o += n * (inc if inc > 0 else int(0.1 * (size - 2 * self.inset)))
            else:
                o += int(n * 0.9 * (size - 2 * self.inset))
        else:
            raise TclError("unknown option %r" % (args[0],))
        self.origin(o if axis == 0 else self.xo, o if axis == 1 else self.yo)

    def xview(self, *args):
        return self.view(0, args)

    def yview(self, *args):
        return self.view(1, args)

    def xview_moveto(self, f):
        self.view(0, ("moveto", f))

    def yview_moveto(self, f):
        self.view(1, ("moveto", f))

    def xview_scroll(self, n, what):
        self.view(0, ("scroll", n, what))

    def yview_scroll(self, n, what):
        self.view(1, ("scroll", n, what))

    def canvasx(self, x, gridspacing=None):
        return number(x) + self.xo

    def canvasy(self, y, gridspacing=None):
        return number(y) + self.yo

    def scan_mark(self, x, y):
        self.mark = (int(x), int(y), self.xo, self.yo)

    def scan_dragto(self, x, y, gain=10):
        mx, my, ox, oy = self.mark
        self.origin(ox - gain * (int(x) - mx), oy - gain * (int(y) - my))

    # -- items
    def create(self, kind, args, kw):
        flat = []
        for a in args:
            if isinstance(a, (list, tuple)) or hasattr(a, "tolist") and getattr(a, "ndim", 0):
                for b in a:
                    flat.extend(b if isinstance(b, (list, tuple)) or getattr(b, "ndim", 0) else [b])
            else:
                flat.append(a)
        coords = [number(v) for v in flat]
        if len(coords) % 2 or len(coords) < 2:
            raise TclError("wrong # coordinates: expected an even number, got %d" % len(coords))
        i = self.next
        self.next += 1
        self.items[i] = Item(kind, coords, dict(kw))
        self.order.append(i)
        return i

    def create_polygon(self, *args, **kw):
        return self.create("polygon", args, kw)

    def create_line(self, *args, **kw):
        return self.create("line", args, kw)

    def create_rectangle(self, *args, **kw):
        return self.create("rectangle", args, kw)

    def create_oval(self, *args, **kw):
        return self.create("oval", args, kw)

    def create_text(self, *args, **kw):
        return self.create("text", args, kw)

    def create_window(self, *args, **kw):
        return self.create("window", args, kw)

    def create_image(self, *args, **kw):
        return self.create("image", args, kw)

    def match(self, spec):
        if isinstance(spec, (list, tuple)):
            spec = spec[0] if spec else ""
        if isinstance(spec, bool):
            spec = int(spec)
        if isinstance(spec, int) or isinstance(spec, str) and spec.isdigit():
            return [int(spec)] if int(spec) in self.items else []
        if spec == "all":
            return list(self.order)
        if spec == "":
            return []
        return [i for i in self.order if str(spec) in self.items[i].tags]

    def find_withtag(self, spec):
        return tuple(self.match(spec))

    def find_all(self):
        return tuple(self.order)

    def delete(self, *specs):
        for s in specs:
            for i in self.match(s):
                del self.items[i]
                self.order.remove(i)

    def gettags(self, spec):
        m = self.match(spec)
        return tuple(self.items[m[0]].tags) if m else ()

    def addtag_withtag(self, tag, spec):
        for i in self.match(spec):
            if tag not in self.items[i].tags:
                self.items[i].tags.append(tag)

    def type(self, spec):
        m = self.match(spec)
        return self.items[m[0]].kind if m else None

    def itemconfigure(self, spec, cnf=None, **kw):
        d = dict(cnf or {})
        d.update(kw)
        for i in self.match(spec):
            it = self.items[i]
            e = dict(d)
            if it.kind in ("text", "line", "window", "image") and "outline" in e:
                raise TclError('unknown option "-outline"')
            if it.kind in ("window", "image") and "fill" in e:
                raise TclError('unknown option "-fill"')
            if "tags" in e or "tag" in e:
                t = e.pop("tags", e.pop("tag", ()))
                it.tags = [str(x) for x in (t.split() if isinstance(t, str) else t)]
            it.opts.update(e)

    itemconfig = itemconfigure

    def itemcget(self, spec, option):
        m = self.match(spec)
        return str(self.items[m[0]].opts.get(option, "")) if m else ""

    def coords(self, spec, *args):
        m = self.match(spec)
        flat = []
        for a in args:
            flat.extend(a if isinstance(a, (list, tuple)) else [a])
        if flat:
            new = [number(v) for v in flat]
            if m:
                self.items[m[0]].coords = new
            return []
        return list(self.items[m[0]].coords) if m else []

    def move(self, spec, dx, dy):
        for i in self.match(spec):
            c = self.items[i].coords
            self.items[i].coords = [v + (number(dx) if k % 2 == 0 else number(dy)) for k, v in enumerate(c)]

    def scale(self, spec, x0, y0, sx, sy):
        x0, y0, sx, sy = map(number, (x0, y0, sx, sy))
        if sx == 0 or sy == 0:
            raise TclError("scale factor cannot be zero")
        for i in self.match(spec):
            c = self.items[i].coords
            self.items[i].coords = [x0 + sx * (v - x0) if k % 2 == 0 else y0 + sy * (v - y0) for k, v in enumerate(c)]

    def tag_raise(self, spec, above=None):
        m = self.match(spec)
        if not m:
            return
        if above is None:
            ref = None
        else:
            r = self.match(above)
            if not r:
                raise TclError('tagOrId "%s" doesn\'t match any items' % above)
            ref = r[-1]
        if ref in m:
            # Tk moves what matches after the reference item, which goes with them
            rest = [i for i in self.order if i not in m]
            after = [i for i in self.order[self.order.index(ref) + 1:] if i not in m]
            k = len(rest) - len(after)
        else:
            rest = [i for i in self.order if i not in m]
            k = len(rest) if ref is None else rest.index(ref) + 1
        self.order = rest[:k] + m + rest[k:]

    lift = tkraise = tag_raise

    def tag_lower(self, spec, below=None):
        m = self.match(spec)
        if not m:
            return
        rest = [i for i in self.order if i not in m]
        k = 0
        if below is not None:
            r = self.match(below)
            if not r:
                raise TclError('tagOrId "%s" doesn\'t match any items' % below)
            k = rest.index([x for x in r if x not in m][0]) if [x for x in r if x not in m] else 0
        self.order = rest[:k] + m + rest[k:]

    lower = tag_lower

    def box(self, i):
        it = self.items[i]
        xs, ys = it.coords[::2], it.coords[1::2]
        if it.kind == "text":
            w, h = 7 * len(str(it.opts.get("text", ""))), 14
            a = it.opts.get("anchor", "center")
            x = xs[0] - (0 if "w" in a else w if "e" in a and a != "center" else w / 2.0)
            y = ys[0] - (0 if "n" in a and a != "center" else h if "s" in a else h / 2.0)
            return x, y, x + w, y + h
        return min(xs) - 1, min(ys) - 1, max(xs) + 1, max(ys) + 1

    def bbox(self, *specs):
        out = None
        for s in specs:
            for i in self.match(s):
                if self.items[i].hidden:
                    continue
                b = self.box(i)
                out = b if out is None else (min(out[0], b[0]), min(out[1], b[1]), max(out[2], b[2]), max(out[3], b[3]))
        if out is None:
            return None
        return (int(math.floor(out[0])), int(math.floor(out[1])), int(math.ceil(out[2])), int(math.ceil(out[3])))

    def distance(self, i, x, y):
        it = self.items[i]
        c = list(zip(it.coords[::2], it.coords[1::2]))
        if it.kind in ("text", "window", "image"):
            b = self.box(i)
            dx = max(b[0] - x, 0, x - b[2])
            dy = max(b[1] - y, 0, y - b[3])
            return math.hypot(dx, dy)
        if it.kind == "rectangle" and len(c) == 2:
            (a, b), (p, q) = c
            c = [(a, b), (p, b), (p, q), (a, q)]
        if it.kind != "line":
            inside = False
            for (ax, ay), (bx, by) in zip(c, c[1:] + c[:1]):
                if (ay > y) != (by > y) and x < (bx - ax) * (y - ay) / (by - ay) + ax:
                    inside = not inside
            if inside and it.opts.get("fill") != "":
                return 0.0
            c = c + c[:1]
        d = 1e300
        for (ax, ay), (bx, by) in zip(c, c[1:]):
            n = (bx - ax) ** 2 + (by - ay) ** 2
            t = 0.0 if n == 0 else max(0.0, min(1.0, ((x - ax) * (bx - ax) + (y - ay) * (by - ay)) / n))
            d = min(d, math.hypot(ax + t * (bx - ax) - x, ay + t * (by - ay) - y))
        return max(0.0, d - 1.0)

    def find_closest(self, x, y, halo=None, start=None):
        x, y = number(x), number(y)
        bi, bd = None, None
        for i in self.order:
            if self.items[i].hidden:
                continue
            d = self.distance(i, x, y)
            if bd is None or d <= bd:
                bi, bd = i, d
        return (bi,) if bi is not None else ()


# -- delivery of events -----------------------------------------------------
def fire(widget, t, detail=None, state=0, rep=1, **k):
    """Delivers an event to a widget, then to the bindings for all."""
    if detail is not None:
        detail = str(detail)
    evt = Event(widget=widget, state=state, **k)
    if t == "Button" or t == "ButtonRelease":
        evt.num = int(detail)
    if t == "Key":
        evt.keysym = detail
    for where in (widget.bindings, app.all):
        for f in best(where, t, detail, state, rep):
            if f(evt) == "break":
                return


def install(driver):
    """Fresh modules tkinter, tkinter.messagebox, tkinter.colorchooser."""
    global app
    app = App(driver)
    tk = types.ModuleType("tkinter")
    tk.__path__ = []
    for k, v in CONST.items():
        setattr(tk, k, v)
    for c in (TclError, Misc, Wm, Tk, Toplevel, Frame, LabelFrame, Label, Scrollbar, Button, Checkbutton, Variable, StringVar, IntVar, DoubleVar,
              BooleanVar, OptionMenu, Entry, Spinbox, Canvas, Event):
        setattr(tk, c.__name__, c)
    tk.Widget = tk.BaseWidget = Misc
    box = types.ModuleType("tkinter.messagebox")

    def show(name):
        def f(title=None, message=None, **k):
            app.dialogs.append((name, title, message))
            return "ok"
        return f
    for n in ("showinfo", "showwarning", "showerror", "askokcancel", "askyesno", "askquestion"):
        setattr(box, n, show(n))
    col = types.ModuleType("tkinter.colorchooser")

    def askcolor(color=None, **k):
        if app.asking is not None:
            app.asking(app)
        a = app.asks.pop(0) if app.asks else None
        if a is None:
            return None, None
        return tuple(int(a[i:i + 2], 16) for i in (1, 3, 5)), a
    col.askcolor = askcolor
    tk.messagebox, tk.colorchooser = box, col
    return {"tkinter": tk, "tkinter.messagebox": box, "tkinter.colorchooser": col}
