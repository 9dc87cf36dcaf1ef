"""A stand-in for tkinter without a display: widgets record what is asked of
them, canvases keep their items the way tk documents it.  install() must run
before gdspy is imported."""
import math
import sys
import types

CREATED = []
DIALOGS = []  # (kind, title, message)
SCRIPT = {}  # answers: "wait": function(dialog), "color": value
ROOT = None
FONT = (6, 12)


class TclError(Exception):
    pass


class Var(object):
    def __init__(self, master=None, value=None, name=None):
        self.value, self.traces = value, []

    def set(self, v):
        self.value = v
        for f in list(self.traces):
            f("PY_VAR", "", "w")

    def trace_variable(self, mode, f):
        if "w" in mode:
            self.traces.append(f)

    trace = trace_variable

    def trace_add(self, mode, f):
        if mode == "write" or "write" in mode:
            self.traces.append(f)


class StringVar(Var):
    def get(self):
        return "" if self.value is None else str(self.value)


class IntVar(Var):
    def get(self):
        try:
            return int(float(0 if self.value is None else self.value))
        except (TypeError, ValueError):
            raise TclError('expected integer but got "%s"' % (self.value,))


class DoubleVar(Var):
    def get(self):
        return float(self.value or 0)


class BooleanVar(Var):
    def get(self):
        return bool(self.value)


class Event(object):
    def __init__(self, x=0, y=0, delta=0, num=0, state=0, widget=None):
        self.x, self.y, self.delta, self.num, self.state, self.widget = x, y, delta, num, state, widget
        self.keysym = self.char = ""
        self.x_root, self.y_root = x, y


class Widget(object):
    pad = 0

    def __init__(self, master=None, cnf=None, **kw):
        self.__dict__["options"] = dict(cnf or {}, **kw)
        self.__dict__["bindings"] = {}
        self.__dict__["destroyed"] = False
        self.master = master if master is not None else (ROOT if self is not ROOT else None)
        CREATED.append(self)

    # options
    def configure(self, cnf=None, **kw):
        self.options.update(dict(cnf or {}, **kw))

    def config(self, cnf=None, **kw):
        self.configure(cnf, **kw)

    def cget(self, k):
        v = self.options.get(k, "")
        return str(v) if k in ("width", "height") else v

    __getitem__ = cget

    def __setitem__(self, k, v):
        self.configure(**{k: v})

    # bindings
    def bind(self, seq=None, func=None, add=None):
        if add:
            self.bindings.setdefault(seq, []).append(func)
        else:
            self.bindings[seq] = [func]

    def bind_all(self, seq=None, func=None, add=None):
        ROOT.bind(seq, func, add)

    def fire(self, seq, ev):
        idle()
        for f in list(self.bindings.get(seq, [])):
            f(ev)
        idle()

    def invoke(self):
        idle()
        if self.options.get("command"):
            r = self.options["command"]()
            idle()
            return r

    # windows
    def winfo_toplevel(self):
        w = self
        while w.master is not None and not isinstance(w, Toplevel):
            w = w.master
        return w

    def winfo_width(self):
        return int(float(self.options.get("width") or 0)) + 2 * self.pad

    def winfo_height(self):
        return int(float(self.options.get("height") or 0)) + 2 * self.pad

    def winfo_reqwidth(self):
        return FONT[0] * len(str(self.options.get("text", "xx"))) + 16

    def winfo_reqheight(self):
        return FONT[1] + 4

    def wait_window(self, w=None):
        if SCRIPT.get("wait"):
            SCRIPT["wait"](w if w is not None else self)

    def destroy(self):
        self.__dict__["destroyed"] = True

    def __getattr__(self, name):
        if name.startswith("__") or name in ("options", "bindings"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Frame(Widget):
    pass


class Toplevel(Widget):
    pass


class Tk(Toplevel):
    pass


class Label(Widget):
    pass


class Button(Widget):
    pass


class Entry(Widget):
    pass


class Spinbox(Widget):
    pass


class OptionMenu(Widget):
    def __init__(self, master, variable, value, *values, **kw):
        Widget.__init__(self, master, **kw)
        self.variable, self.values = variable, (value,) + values


class Scrollbar(Widget):
    def __init__(self, master=None, cnf=None, **kw):
        Widget.__init__(self, master, cnf, **kw)
        self.pos = (0.0, 1.0)

    def set(self, a, b):
        self.pos = (float(a), float(b))

    def get(self):
        return self.pos


ALL = "all"


class Canvas(Widget):
    pad = 3

    def __init__(self, master=None, cnf=None, **kw):
        self.__dict__["items"] = {}
        self.__dict__["order"] = []
        self.__dict__["last"] = 0
        self.__dict__["origin"] = [0.0, 0.0]
        Widget.__init__(self, master, cnf, **kw)

    # items
    def create(self, kind, args, kw):
        flat = []

        def walk(a):
            for v in a:
                if isinstance(v, (list, tuple)) or hasattr(v, "__iter__") and not isinstance(v, str):
                    walk(v)
                else:
                    flat.append(float(v))

        walk(args)
        self.last += 1
        kw = dict(kw)
        tags = kw.pop("tag", None) if "tag" in kw else kw.pop("tags", ())
        tags = (tags,) if isinstance(tags, str) else tuple(tags)
        kw.setdefault("state", "normal")
        self.items[self.last] = dict(kind=kind, coords=flat, opts=kw, tags=tags)
        self.order.append(self.last)
        return self.last

    def create_polygon(self, *a, **k):
        return self.create("polygon", a, k)

    def create_text(self, *a, **k):
        return self.create("text", a, k)

    def create_line(self, *a, **k):
        return self.create("line", a, k)

    def create_rectangle(self, *a, **k):
        return self.create("rectangle", a, k)

    def create_window(self, *a, **k):
        return self.create("window", a, k)

    def ids(self, t):
        if isinstance(t, (list, tuple)):
            return [i for x in t for i in self.ids(x)]
        if isinstance(t, str) and t.lstrip("-").isdigit():
            t = int(t)
        if isinstance(t, int):
            return [t] if t in self.items else []
        if t == ALL:
            return list(self.order)
        return [i for i in self.order if t in self.items[i]["tags"]]

    def find_withtag(self, t):
        return tuple(self.ids(t))

    def find_all(self):
        return tuple(self.order)

    def gettags(self, t):
        i = self.ids(t)
        return self.items[i[0]]["tags"] if i else ()

    def itemconfigure(self, t, cnf=None, **kw):
        for i in self.ids(t):
            self.items[i]["opts"].update(dict(cnf or {}, **kw))

    itemconfig = itemconfigure

    def itemcget(self, t, k):
        i = self.ids(t)
        return self.items[i[0]]["opts"].get(k, "") if i else ""

    def type(self, t):
        i = self.ids(t)
        return self.items[i[0]]["kind"] if i else None

    def coords(self, t, *a):
        i = self.ids(t)
        if not i:
            return []
        if not a:
            return list(self.items[i[0]]["coords"])
        if len(a) == 1 and not isinstance(a[0], (int, float)):
            a = a[0]
        self.items[i[0]]["coords"] = [float(x) for x in a]

    def delete(self, *ts):
        for t in ts:
            for i in self.ids(t):
                del self.items[i]
                self.order.remove(i)

    def move(self, t, dx, dy):
        for i in self.ids(t):
            c = self.items[i]["coords"]
            c[0::2] = [x + dx for x in c[0::2]]
            c[1::2] = [y + dy for y in c[1::2]]

    def scale(self, t, x0, y0, sx, sy):
        for i in self.ids(t):
            c = self.items[i]["coords"]
            c[0::2] = [x0 + (x - x0) * sx for x in c[0::2]]
            c[1::2] = [y0 + (y - y0) * sy for y in c[1::2]]

    def tag_raise(self, t, above=None):
        mine = self.ids(t)
        if above is not None:
            other = self.ids(above)
            if not other:
                raise TclError('tag "%s" doesn\'t match any items' % above)
            mark = other[-1]
            if mark in mine:
                rest = [i for i in self.order if i not in mine or i == mark]
            else:
                rest = [i for i in self.order if i not in mine]
            k = rest.index(mark) + 1
            rest = [i for i in rest if i not in mine or i == mark]
        else:
            rest = [i for i in self.order if i not in mine]
            k = len(rest)
        mine = [i for i in mine if i not in rest]
        self.order[:] = rest[:k] + mine + rest[k:]

    lift = tag_raise

    def tag_lower(self, t, below=None):
        mine = self.ids(t)
        rest = [i for i in self.order if i not in mine]
        k = 0
        if below is not None:
            other = [i for i in self.ids(below) if i in rest]
            if not other:
                raise TclError('tag "%s" doesn\'t match any items' % below)
            k = rest.index(other[0])
        self.order[:] = rest[:k] + mine + rest[k:]

    lower = tag_lower

    def box(self, i):
        it = self.items[i]
        if it["opts"].get("state") == "hidden" or not it["coords"]:
            return None
        x, y = it["coords"][0::2], it["coords"][1::2]
        if it["kind"] == "text":
            w, h = FONT[0] * len(str(it["opts"].get("text", ""))), FONT[1]
            a = it["opts"].get("anchor", "center")
            x0 = x[0] - (0 if "w" in a and a != "center" else w if "e" in a and a != "center" else w / 2)
            y0 = y[0] - (0 if "n" in a and a != "center" else h if "s" in a and a != "center" else h / 2)
            # (with room for the insertion cursor)
            return (math.floor(x0) - 1, math.floor(y0) - 1, math.ceil(x0 + w) + 1, math.ceil(y0 + h) + 1)
        return (math.floor(min(x)) - 1, math.floor(min(y)) - 1, math.ceil(max(x)) + 1, math.ceil(max(y)) + 1)

    def bbox(self, *ts):
        b = [self.box(i) for t in ts for i in self.ids(t)]
        b = [x for x in b if x]
        if not b:
            return None
        return (int(min(x[0] for x in b)), int(min(x[1] for x in b)), int(max(x[2] for x in b)), int(max(x[3] for x in b)))

    def find_closest(self, x, y, halo=None, start=None):
        best, ans = None, ()
        for i in self.order:
            b = self.box(i)
            if b is None:
                continue
            it = self.items[i]
            if it["kind"] == "polygon":
                d = poly_dist(it["coords"], x, y)
            else:
                d = math.hypot(max(b[0] - x, 0, x - b[2]), max(b[1] - y, 0, y - b[3]))
            if best is None or d <= best:
                best, ans = d, (i,)
        return ans

    # view
    def region(self):
        r = self.options.get("scrollregion")
        if not r:
            return None
        if isinstance(r, str):
            r = r.split()
        return [float(x) for x in r]

    def configure(self, cnf=None, **kw):
        kw = dict(cnf or {}, **kw)
        self.options.update(kw)
        if "scrollregion" in kw:
            self.put(*self.origin)

    def put(self, x, y):
        r = self.region()
        if r:
            for k, (v, w) in enumerate(((x, self.winfo_width()), (y, self.winfo_height()))):
                # (the inset is part of what is shown)
                lo, hi = r[k] - self.pad, r[k + 2] + self.pad - w
                v = max(lo, min(v, hi)) if hi >= lo else lo
                if k == 0:
                    x = v
                else:
                    y = v
        self.origin[:] = [x, y]
        self.scrolled()

    def scrolled(self):
        # (tk tells the scroll bars when it is idle)
        if self not in PENDING:
            PENDING.append(self)

    def tell(self):
        r = self.region()
        if r:
            for k, c in enumerate(("xscrollcommand", "yscrollcommand")):
                f = self.options.get(c)
                w = (self.winfo_width(), self.winfo_height())[k] - 2 * self.pad
                n = r[k + 2] - r[k]
                if f and n > 0:
                    a = (self.origin[k] + self.pad - r[k]) / n
                    f(max(0, a), min(1, a + w / n))

    def view(self, k, a):
        r = self.region()
        if not a or not r:
            return None
        o = list(self.origin)
        if str(a[0]) == "moveto":
            o[k] = r[k] - self.pad + int(float(a[1]) * (r[k + 2] - r[k]) + 0.5)
        else:
            o[k] += float(a[1]) * 0.1 * (self.winfo_width(), self.winfo_height())[k]
        self.put(*o)

    def xview(self, *a):
        return self.view(0, a)

    def yview(self, *a):
        return self.view(1, a)

    def xview_moveto(self, f):
        return self.view(0, ("moveto", f))

    def yview_moveto(self, f):
        return self.view(1, ("moveto", f))

    def xview_scroll(self, n, what):
        return self.view(0, ("scroll", n, what))

    def yview_scroll(self, n, what):
        return self.view(1, ("scroll", n, what))

    def canvasx(self, x, grid=None):
        return self.origin[0] + x

    def canvasy(self, y, grid=None):
        return self.origin[1] + y

    def scan_mark(self, x, y):
        self.__dict__["mark"] = (x, y, list(self.origin))

    def scan_dragto(self, x, y, gain=10):
        mk = self.__dict__.get("mark") or (x, y, list(self.origin))
        self.put(mk[2][0] - gain * (x - mk[0]), mk[2][1] - gain * (y - mk[1]))


def poly_dist(c, x, y):
    """0 inside (as tk fills: even-odd), else the distance to the outline."""
    n = len(c) // 2
    odd, d = False, float("inf")
    for k in range(n):
        x0, y0, x1, y1 = c[2 * k], c[2 * k + 1], c[2 * ((k + 1) % n)], c[2 * ((k + 1) % n) + 1]
        if (y0 > y) != (y1 > y) and x < (x1 - x0) * (y - y0) / (y1 - y0) + x0:
            odd = not odd
        l = (x1 - x0) ** 2 + (y1 - y0) ** 2
        t = 0 if l == 0 else max(0, min(1, ((x - x0) * (x1 - x0) + (y - y0) * (y1 - y0)) / l))
        d = min(d, math.hypot(x0 + t * (x1 - x0) - x, y0 + t * (y1 - y0) - y))
    return 0.0 if odd else d


PENDING = []


def idle():
    """What tk does between events."""
    while PENDING:
        PENDING.pop(0).tell()


def reset():
    global ROOT
    del PENDING[:]
    del CREATED[:]
    del DIALOGS[:]
    SCRIPT.clear()
    ROOT = None
    ROOT = Tk()
    ROOT.master = None


def dialog(kind, answer=None):
    def f(title=None, message=None, **kw):
        DIALOGS.append((kind, title, message))
        return answer

    return f


def install():
    t = types.ModuleType("tkinter")
    t.__dict__.update(
        dict(
            N="n", S="s", E="e", W="w", NW="nw", NE="ne", SW="sw", SE="se", CENTER="center", NSEW="nsew", X="x", Y="y", BOTH="both", LEFT="left", RIGHT="right", TOP="top", BOTTOM="bottom",
            HORIZONTAL="horizontal", VERTICAL="vertical", SCROLL="scroll", UNITS="units", PAGES="pages", MOVETO="moveto", ALL=ALL, END="end", FIRST="first", LAST="last", NORMAL="normal",
            HIDDEN="hidden", DISABLED="disabled", ACTIVE="active", FLAT="flat", INSERT="insert", YES=True, NO=False, TRUE=True, FALSE=False, TkVersion=8.6, TclVersion=8.6,
            Variable=Var, StringVar=StringVar, IntVar=IntVar, DoubleVar=DoubleVar, BooleanVar=BooleanVar, Event=Event, Widget=Widget, Misc=Widget, Frame=Frame, LabelFrame=Frame,
            Toplevel=Toplevel, Tk=Tk, Label=Label, Button=Button, Entry=Entry, Spinbox=Spinbox, OptionMenu=OptionMenu, Scrollbar=Scrollbar, Canvas=Canvas, TclError=TclError,
        )
    )
    mb, cc = types.ModuleType("tkinter.messagebox"), types.ModuleType("tkinter.colorchooser")
    for k in ("showinfo", "showwarning", "showerror"):
        setattr(mb, k, dialog(k, "ok"))
    cc.askcolor = lambda color=None, **kw: SCRIPT.get("color", (None, None))
    t.messagebox, t.colorchooser = mb, cc
    t.__path__ = []
    sys.modules["tkinter"], sys.modules["tkinter.messagebox"], sys.modules["tkinter.colorchooser"] = t, mb, cc
    reset()
    return t
