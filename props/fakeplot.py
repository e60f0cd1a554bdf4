"""A stand-in for matplotlib (and networkx's drawing functions) that keeps what it is asked to draw.

What a figure shows is recorded as data, whichever way of the library's interface led to it (plt.title or ax.set_title,
plt.imshow or ax.imshow, ...).  Anything else the code asks for is accepted and ignored.  The same stand-in is used on the
hooked and on the plain package.
"""
import itertools
import sys


class Anything:
    """accepts everything"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()

    def __iter__(self):
        return iter(())


def pair(args, kw, a, b):
    """the limits meant by the arguments of xlim/ylim"""
    if args and isinstance(args[0], (tuple, list)):
        args = tuple(args[0])
    lo = args[0] if len(args) > 0 else kw.get(a, kw.get(a[0] + "min"))
    hi = args[1] if len(args) > 1 else kw.get(b, kw.get(a[0] + "max"))
    return lo, hi


def rows(data):
    """nested lists"""
    if getattr(data, "ndim", 0) or isinstance(data, (list, tuple)):
        return [rows(x) for x in data]
    return data


class Normalize:
    def __init__(self, vmin=None, vmax=None, clip=False):
        self.vmin, self.vmax = vmin, vmax


class Image:
    def __init__(self, data, args):
        self.data, self.args = data, dict(args)
        norm = self.args.get("norm")
        self.vmin = norm.vmin if norm is not None else self.args.get("vmin")
        self.vmax = norm.vmax if norm is not None else self.args.get("vmax")
        self.cmap = self.args.get("cmap")

    def set_data(self, data):
        self.data = data

    set_array = set_data

    def get_array(self):
        return self.data

    def set_clim(self, vmin=None, vmax=None):
        self.vmin, self.vmax = vmin if vmin is not None else self.vmin, vmax if vmax is not None else self.vmax

    def get_size(self):
        return len(self.data), len(self.data[0])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()


class Line:
    def __init__(self, x, y, args):
        self.x, self.y, self.args = x, y, dict(args)

    def set_data(self, x, y=None):
        self.x, self.y = (x, y) if y is not None else x

    def set_xdata(self, x):
        self.x = x

    def set_ydata(self, y):
        self.y = y

    def get_data(self):
        return self.x, self.y

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()


class Text:
    def __init__(self, axes=None, text=""):
        self.axes, self.text = axes, text

    def set_text(self, s):
        self.text = s
        if self.axes is not None:
            self.axes.title = s

    def get_text(self):
        return self.text

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()


class Axes:
    def __init__(self, figure):
        self.figure, self.twin = figure, None
        self.reset()

    def reset(self):
        rec = self.figure.rec
        rec.drawn[:] = [d for d in rec.drawn if d.axes is not self]
        self.title, self.xlabel, self.ylabel, self.xlim_, self.ylim_ = "", "", "", (None, None), (None, None)
        self.ylabel_args = {}
        self.images, self.lines, self.scatters, self.bars, self.texts, self.patches, self.collections = [], [], [], [], [], [], []
        self.legends, self.inverted, self.cycle = [], False, None

    def clear(self):
        self.reset()

    cla = clear

    def set_title(self, label, **kw):
        self.title = label
        return Text(self, label)

    def get_title(self):
        return self.title

    def imshow(self, X, cmap=None, **kw):
        im = Image(X, dict(kw, cmap=cmap))
        self.images.append(im)
        return im

    def plot(self, *args, **kw):
        out, args = [], list(args)
        while args:
            x = args.pop(0)
            y = args.pop(0) if args and not isinstance(args[0], str) else None
            if args and isinstance(args[0], str):
                kw = dict(kw, fmt=args.pop(0))
            if y is None:
                x, y = list(range(len(x))), x
            out.append(Line(x, y, kw))
        self.lines += out
        return out

    def scatter(self, x, y, *a, **kw):
        self.scatters.append(Line(x, y, kw))
        return self.scatters[-1]

    def bar(self, x, height, *a, **kw):
        self.bars.append(Line(x, height, kw))
        return Anything()

    def text(self, x, y, s, *a, **kw):
        self.texts.append((x, y, s))
        return Text(None, s)

    def annotate(self, s, xy, *a, **kw):
        xy = kw.get("xytext", xy)
        return self.text(xy[0], xy[1], s)

    def set_xlabel(self, s, *a, **kw):
        self.xlabel = s

    def set_ylabel(self, s, *a, **kw):
        self.ylabel, self.ylabel_args = s, dict(kw)

    def set_xlim(self, *a, **kw):
        lo, hi = pair(a, kw, "left", "right")
        self.xlim_ = (lo if lo is not None else self.xlim_[0], hi if hi is not None else self.xlim_[1])
        return self.xlim_

    def set_ylim(self, *a, **kw):
        lo, hi = pair(a, kw, "bottom", "top")
        self.ylim_ = (lo if lo is not None else self.ylim_[0], hi if hi is not None else self.ylim_[1])
        return self.ylim_

    def get_xlim(self):
        return self.xlim_

    def get_ylim(self):
        return self.ylim_

    def set(self, **kw):
        for k, x in kw.items():
            getattr(self, "set_" + k)(x)

    def legend(self, *a, **kw):
        self.legends.append(dict(kw))

    def twinx(self):
        ax = Axes(self.figure)
        ax.twin = self
        self.figure.axes_.append(ax)
        return ax

    def add_patch(self, p):
        self.patches.append(p)
        return p

    def add_collection(self, c, *a, **kw):
        self.collections.append(c)
        return c

    def invert_yaxis(self):
        self.inverted = not self.inverted

    def set_prop_cycle(self, *a, **kw):
        self.cycle = (a, kw)

    @property
    def axes(self):
        return self

    def get_figure(self):
        return self.figure

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()


class Figure:
    def __init__(self, rec):
        self.rec, self.axes_ = rec, []

    @property
    def axes(self):
        return list(self.axes_)

    def add_subplot(self, *a, **kw):
        ax = Axes(self)
        self.axes_.append(ax)
        self.rec.current = self
        self.rec.current_axes = ax
        return ax

    add_axes = add_subplot

    def gca(self):
        return self.axes_[-1] if self.axes_ else self.add_subplot()

    def clear(self, *a, **kw):
        for ax in self.axes_:
            ax.clear()
        self.axes_.clear()
        if self.rec.current is self:
            self.rec.current_axes = None

    clf = clear

    def suptitle(self, s, **kw):
        self.gca().set_title(s)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()


AXES_METHODS = {"title": "set_title", "xlabel": "set_xlabel", "ylabel": "set_ylabel", "xlim": "set_xlim", "ylim": "set_ylim",
                "imshow": "imshow", "plot": "plot", "scatter": "scatter", "bar": "bar", "text": "text", "annotate": "annotate",
                "legend": "legend"}


class Cmap:
    def __init__(self, name):
        self.name = name

    def __call__(self, x, *a, **k):
        return ("color", self.name, x)


class Animation:
    def __init__(self, fig, func, frames=None, init_func=None, fargs=None, save_count=None, **kw):
        self.fig, self.func, self.frames, self.fargs, self.kw = fig, func, frames, fargs or (), kw
        REC.animations.append(self)

    def save(self, filename, *a, **kw):
        REC.saved.append(filename)

    def steps(self, n):
        """call the function as matplotlib does, n times (less if the frames end), yielding after each call"""
        f = self.frames
        it = itertools.count() if f is None else iter(range(f)) if isinstance(f, int) else f() if callable(f) else iter(f)
        for _, frame in zip(range(n), it):
            self.func(frame, *self.fargs)
            yield frame

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()


class Polygon:
    def __init__(self, xy, numVertices=None, radius=5, orientation=0, **kw):
        self.xy, self.n, self.radius, self.orientation, self.kw = xy, numVertices, radius, orientation, dict(kw)

    def set_facecolor(self, c):
        self.kw["facecolor"] = c

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()


class Patches:
    """a PatchCollection"""

    def __init__(self, patches, match_original=False, cmap=None, norm=None, **kw):
        self.patches, self.cmap, self.norm, self.array = list(patches), cmap, norm, None
        self.vmin, self.vmax = (norm.vmin, norm.vmax) if norm is not None else (None, None)

    def set_array(self, a):
        self.array = a

    def set_clim(self, vmin=None, vmax=None):
        self.vmin, self.vmax = vmin, vmax

    def set_norm(self, norm):
        self.vmin, self.vmax = norm.vmin, norm.vmax

    def set_cmap(self, cmap):
        self.cmap = cmap

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()


class Lines:
    """a LineCollection"""

    def __init__(self, segments, **kw):
        self.segments, self.kw = segments, kw


class Mappable:
    def __init__(self, norm=None, cmap=None):
        self.norm, self.cmap = norm, cmap
        if isinstance(cmap, str):
            self.cmap = Cmap(cmap)

    def to_rgba(self, x, *a, **k):
        return ("rgba", self.cmap.name, self.norm.vmin, self.norm.vmax, x)

    def get_cmap(self):
        return self.cmap


class Drawing(tuple):
    """a drawing of a graph: nodes, edges, layout, options"""
    axes = None


class Recorder:
    """plays the role of matplotlib.pyplot, too"""

    def __init__(self):
        self.figures, self.by_number, self.current, self.current_axes = [], {}, None, None
        self.shown, self.animations, self.saved, self.drawn = 0, [], [], []

    # ---- pyplot
    def figure(self, num=None, **kw):
        if num is None or num not in self.by_number:
            f = Figure(self)
            self.figures.append(f)
            self.by_number[len(self.by_number) if num is None else num] = f
        else:
            f = self.by_number[num]
        self.current, self.current_axes = f, f.axes_[-1] if f.axes_ else None
        return f

    def subplots(self, nrows=1, ncols=1, **kw):
        f = self.figure()
        if nrows == 1 and ncols == 1:
            return f, f.add_subplot()
        return f, [f.add_subplot() for _ in range(nrows * ncols)]

    def gcf(self):
        return self.current or self.figure()

    def gca(self):
        if self.current_axes is None:
            self.gcf().add_subplot()
        return self.current_axes

    def sca(self, ax):
        self.current_axes, self.current = ax, ax.figure

    def subplot(self, *a, **kw):
        return self.gca()

    axes = subplot

    def twinx(self, ax=None):
        self.current_axes = (ax or self.gca()).twinx()
        return self.current_axes

    def cla(self):
        self.gca().clear()

    def clf(self):
        self.gcf().clear()

    def get_cmap(self, name=None, *a):
        return name if isinstance(name, Cmap) else Cmap(name)

    def show(self, *a, **kw):
        self.shown += 1

    def savefig(self, name, *a, **kw):
        self.saved.append(name)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in AXES_METHODS:
            return getattr(self.gca(), AXES_METHODS[name])
        return Anything()

    def all_axes(self):
        return [a for f in self.figures for a in f.axes_]


class Module:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()


class Layout(dict):
    """the positions a layout function of networkx would compute"""

    def __init__(self, name, G):
        dict.__init__(self, {n: (i, i) for i, n in enumerate(G)})
        self.name = name


REC = None


class plots:
    """with plots(ctx) as rec: everything the package draws goes to rec"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        global REC
        import matplotlib
        import matplotlib.animation
        import matplotlib.cm
        import matplotlib.collections
        import matplotlib.colors
        import matplotlib.patches
        import matplotlib.pyplot
        import networkx as nx
        import webbrowser
        rec = REC = Recorder()
        fake_anim = Module(FuncAnimation=Animation)
        fake_coll = Module(PatchCollection=Patches, LineCollection=Lines)
        fake_patch = Module(RegularPolygon=Polygon)
        fake_cm = Module(ScalarMappable=Mappable, get_cmap=rec.get_cmap)
        fake_colors = Module(Normalize=Normalize)
        fake = Module(pyplot=rec, animation=fake_anim, collections=fake_coll, patches=fake_patch, cm=fake_cm, colors=fake_colors)
        swap = [(matplotlib, fake), (matplotlib.pyplot, rec), (matplotlib.animation, fake_anim), (matplotlib.collections, fake_coll),
                (matplotlib.patches, fake_patch), (matplotlib.cm, fake_cm), (matplotlib.colors, fake_colors),
                (matplotlib.animation.FuncAnimation, Animation), (matplotlib.collections.PatchCollection, Patches),
                (matplotlib.collections.LineCollection, Lines), (matplotlib.patches.RegularPolygon, Polygon),
                (matplotlib.cm.ScalarMappable, Mappable), (matplotlib.colors.Normalize, Normalize),
                (matplotlib.pyplot.get_cmap, rec.get_cmap), (matplotlib.pyplot.show, rec.show)]

        def draw(layout):
            def f(G, pos=None, ax=None, **kw):
                where = layout or (pos.name if isinstance(pos, Layout) else None if pos is None else dict(pos))
                d = Drawing((list(G.nodes), list(G.edges()), where, dict(kw)))
                d.axes = ax if ax is not None else rec.gca()
                rec.drawn.append(d)
            return f
        fakes = {"draw": draw(None), "draw_networkx": draw(None)}
        for name in ("shell", "spring", "planar", "kamada_kawai", "circular", "spectral", "random"):
            fakes["draw_" + name] = draw(name)
            fakes[name + "_layout"] = (lambda name: lambda G, *a, **k: Layout(name, G))(name)
        self.undo = []
        for name, f in fakes.items():
            if hasattr(nx, name):
                swap.append((getattr(nx, name), f))
                self._set(nx, name, f)
        self._set(webbrowser, "open", lambda *a, **k: rec.saved.append(("opened",) + a))
        by = {id(real): f for real, f in swap}
        self.keep = [real for real, _ in swap]
        for mname, m in list(sys.modules.items()):
            if m is not None and (mname == "netomaton" or mname.startswith("netomaton.")):
                for k, x in list(vars(m).items()):
                    if id(x) in by:
                        self._set(m, k, by[id(x)])
        for name in ("", ".pyplot", ".animation", ".collections", ".patches", ".cm", ".colors"):
            key = "matplotlib" + name
            self.undo.append((sys.modules, key, sys.modules[key]))
            sys.modules[key] = by[id(sys.modules[key])]
        return rec

    def _set(self, obj, name, value):
        self.undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def __exit__(self, *a):
        for obj, name, value in reversed(self.undo):
            if isinstance(obj, dict):
                obj[name] = value
            else:
                setattr(obj, name, value)
        return False
