"""C43: plots and animations of activities."""
from sx.harness import harness
from .fakeplot import plots, rows

BOUNDS = ("activities of up to 4 timesteps and 6 nodes (arbitrary integers or reals), as lists and as trajectories with labels in any order; "
          "grids of 1x1 to 3x2 cells with every slice, annotations, titles, value ranges; animations stepped through twice; hexagonal grids "
          "of 1 to 4 rows; animations of 70 and 130 timesteps (thorough: 120 and 300), 25 figures (thorough: 60).")

OUTSIDE = "how matplotlib draws what it is given (it is replaced by a recorder); file formats; shapes of one dimension in plot_activities."


def given(ctx, T, n, real=False, name="a"):
    return [[(ctx.real if real else ctx.int)("%s%d_%d" % (name, t, k), -9, 9) for k in range(n)] for t in range(T)]


def trajectory(ctx, acts, labels=None):
    n = len(acts[0])
    labels = list(range(n)) if labels is None else labels
    order = sorted(range(n), key=lambda k: (k * 7 + 3) % (n + 1))
    return [ctx.ntm.State(activities={labels[k]: row[k] for k in order}) for row in acts]


def options(ctx):
    kw, want = {}, {"title": "", "cmap": "Greys", "vmin": None, "vmax": None}
    if ctx.flag("options"):
        kw = {"title": "a title", "colormap": "viridis", "vmin": ctx.int("vmin", -9, 9), "vmax": ctx.int("vmax", -9, 9)}
        want = {"title": "a title", "cmap": "viridis", "vmin": kw["vmin"], "vmax": kw["vmax"]}
    return kw, want


def name(cmap):
    return getattr(cmap, "name", cmap)


def one_image(ctx, rec, want, data, axes=None):
    shown = [a for a in rec.all_axes() if a.images] if axes is None else axes
    ctx.check("one image", len(shown) == 1 and len(shown[0].images) == 1)
    im = shown[0].images[0]
    ctx.eq("the image shows the activities", rows(im.data), data)
    check_style(ctx, shown[0], im, want)
    return shown[0], im


def check_style(ctx, ax, im, want):
    ctx.check("the title", ax.title == want["title"])
    ctx.check("the colormap", name(im.cmap) == want["cmap"])
    ctx.eq("the range of values", [im.vmin, im.vmax], [want["vmin"], want["vmax"]])


@harness(quick=[{"T": 3, "n": 3}, {"T": 1, "n": 2}, {"T": 2, "n": 1}, {"T": 4, "n": 2}, {"T": 2, "n": 4}], thorough=[{"T": 5, "n": 6}, {"T": 7, "n": 3}])
def over_time(ctx, T, n):
    """a row for every timestep, from lists and trajectories"""
    ntm = ctx.ntm
    acts = given(ctx, T, n, ctx.flag("real"))
    how = ctx.choice("how", ["plot_grid", "plot_activities", "trajectory"])
    kw, want = options(ctx)
    notes = None
    if ctx.flag("annotated"):
        notes = kw["node_annotations"] = [["n%d%d" % (t, k) if (t + k) % 2 else None for k in range(n)] for t in range(T)]
    if ctx.flag("grid"):
        kw["show_grid"] = True
    with plots(ctx) as rec:
        if how == "plot_grid":
            ntm.plot_grid([list(r) for r in acts], **kw)
        else:
            labels = ctx.choice("labels", [None, [10 - k for k in range(n)], ["n%d" % k for k in range(n)]])
            if labels and labels[0] == 10:
                ntm.plot_activities(trajectory(ctx, [r[::-1] for r in acts], labels), **kw)
            else:
                ntm.plot_activities(trajectory(ctx, acts, labels) if how == "trajectory" else acts, **kw)
    ax, _ = one_image(ctx, rec, want, acts)
    ctx.check("shown once", rec.shown == 1)
    if notes is not None:
        ctx.check("every annotation at its place", sorted((x, y, str(s)) for x, y, s in ax.texts) ==
                  sorted((k, t, str(notes[t][k])) for t in range(T) for k in range(n)))
    else:
        ctx.check("no annotations", not ax.texts)


@harness(quick=[{"T": 3, "r": 2, "c": 3}, {"T": 2, "r": 3, "c": 2}, {"T": 2, "r": 1, "c": 2}, {"T": 1, "r": 1, "c": 1}],
         thorough=[{"T": T, "r": r, "c": c} for T in (1, 5) for r in (1, 2, 3, 4) for c in (1, 2, 4)])
def as_grid(ctx, T, r, c):
    """the chosen timestep, row by row"""
    ntm = ctx.ntm
    acts = given(ctx, T, r * c, ctx.flag("real"))
    kw, want = options(ctx)
    t = -1
    if ctx.flag("slice"):
        t = kw["slice"] = ctx.choice("t", range(-T, T))
    how = ctx.choice("how", ["plot_grid", "plot_activities", "trajectory"])
    with plots(ctx) as rec:
        if how == "plot_grid":
            ntm.plot_grid(acts, (r, c), **kw)
        else:
            ntm.plot_activities(trajectory(ctx, acts) if how == "trajectory" else acts, shape=(r, c), **kw)
    one_image(ctx, rec, want, [[acts[t][i * c + j] for j in range(c)] for i in range(r)])
    ctx.check("shown once", rec.shown == 1)


@harness(quick=[{"k": 2}, {"k": 3}], thorough=[{"k": 1}, {"k": 5}])
def several(ctx, k):
    """one figure for each, in order"""
    ntm = ctx.ntm
    all_acts = [given(ctx, 2, 4, name="a%d_" % i) for i in range(k)]
    kw, want = options(ctx)
    titles = None
    kw.pop("title", None)
    if ctx.flag("titles"):
        titles = kw["titles"] = ["title %d" % i for i in range(k)]
    shape = t = None
    if ctx.flag("shape"):
        shape = kw["shape"] = (2, 2)
        t = -1
        if ctx.flag("slice"):
            t = kw["slice"] = 0
    with plots(ctx) as rec:
        ntm.plot_grid_multiple(all_acts, **kw)
    shown = [a for a in rec.all_axes() if a.images]
    ctx.check("one figure for each", len(shown) == k and len({id(a.figure) for a in shown}) == k and rec.shown >= 1)
    for i, ax in enumerate(shown):
        a = all_acts[i]
        ctx.check("one image", len(ax.images) == 1)
        ctx.eq("the image shows the activities", rows(ax.images[0].data), a if shape is None else [a[t][:2], a[t][2:]])
        check_style(ctx, ax, ax.images[0], dict(want, title=titles[i] if titles else ""))


@harness(quick=[{"T": 3, "kind": k} for k in ("grid", "line", "nested")] + [{"T": 1, "kind": "grid"}, {"T": 4, "kind": "line"}],
         thorough=[{"T": T, "kind": k} for T in (5, 6) for k in ("grid", "line", "nested")])
def animated(ctx, T, kind):
    """the frames are the timesteps in order, over and over"""
    ntm = ctx.ntm
    r, c = (2, 3) if kind != "line" else (T, 3)
    acts = given(ctx, T, 6 if kind != "line" else 3)
    if kind == "line":
        frames = [[acts[s] if s <= t else [0, 0, 0] for s in range(T)] for t in range(T)]
        arg, shape = acts, (3,)
    else:
        frames = [[a[:3], a[3:]] for a in acts]
        arg, shape = (acts, (2, 3)) if kind == "grid" else (frames, None)
    kw, want = options(ctx)
    steps = ctx.flag("with_timestep")
    if steps:
        kw["with_timestep"] = True
    if ctx.flag("more"):
        kw.update(show_grid=True, show_margin=False)
    save = ctx.flag("save")
    if kind != "nested" and ctx.flag("trajectory"):
        arg = trajectory(ctx, arg)
    with plots(ctx) as rec:
        ntm.animate_activities(arg, shape=shape, save=save, **kw)
        shown = rec.shown
        ax, im = one_image(ctx, rec, want, frames[0])
        ctx.check("one animation", len(rec.animations) == 1 and shown == 1)
        ctx.check("saved if asked for", len(rec.saved) == (1 if save else 0))
        k = 0
        for _ in rec.animations[0].steps(2 * T + 1):
            k += 1
            ctx.check("one image", ax.images == [im])
            ctx.eq("a frame shows the activities of its timestep", rows(im.data), frames[k % T])
            ctx.check("the title of a frame", ax.title == ("timestep: %d" % (k % T + 1) if steps else want["title"]))
        ctx.check("the animation goes on", k == 2 * T + 1)


@harness(quick=[{}])
def nothing(ctx):
    """without activities there is nothing to show; a shape that does not fit is an error"""
    ntm = ctx.ntm
    with plots(ctx) as rec:
        ctx.raises("no activities", lambda: ntm.plot_activities([]))
        ctx.raises("no activities", lambda: ntm.animate_activities([]))
        acts = given(ctx, 2, 4)
        shape = ctx.choice("shape", [(3,), (5,), (2, 3), (1, 2, 2), ()])
        ctx.raises("a shape that does not fit", lambda: ntm.animate_activities(acts, shape=shape))
        if len(shape) == 2:
            ctx.raises("a shape that does not fit", lambda: ntm.plot_activities(acts, shape=shape))


def hexagons(ctx, patches, r, c):
    """the centres by cell; neighbouring cells of a row, and of adjacent rows, touch"""
    ctx.check("one hexagon for every cell", len(patches) == r * c and all(p.n == 6 and abs(p.radius - 1) < 1e-9 for p in patches))
    at = {}
    ys = sorted({round(p.xy[1], 6) for p in patches})
    ctx.check("rows", len(ys) == r)
    for y in ys:
        row = sorted((p for p in patches if round(p.xy[1], 6) == y), key=lambda p: p.xy[0])
        ctx.check("cells of a row", len(row) == c)
        for j, p in enumerate(row):
            at[(ys.index(y), j)] = p
    near = lambda p, q: abs(((p.xy[0] - q.xy[0]) ** 2 + (p.xy[1] - q.xy[1]) ** 2) ** 0.5 - 3 ** 0.5) < 1e-6
    even = r % 2 == 0
    for i in range(r):
        for j in range(c):
            if j:
                ctx.check("cells of a row touch", near(at[(i, j)], at[(i, j - 1)]))
            if i:
                # odd rows are shifted to the left of even ones in grids with an even number of rows (as in the hexagonal topology)
                shift = -1 if (i % 2 == 1) == even else 1
                ctx.check("cells of adjacent rows touch", near(at[(i, j)], at[(i - 1, j)]))
                if 0 <= j + shift < c:
                    ctx.check("cells of adjacent rows touch", near(at[(i, j)], at[(i - 1, j + shift)]))
    return at


@harness(quick=[{"r": 2, "c": 2}, {"r": 3, "c": 2}, {"r": 4, "c": 1}, {"r": 1, "c": 3}, {"r": 2, "c": 3}],
         thorough=[{"r": r, "c": c} for r in (3, 4, 5, 6) for c in (2, 3, 4)])
def hex_grid(ctx, r, c):
    """every cell is drawn once, at its place, in the colour of its activity"""
    ntm = ctx.ntm
    acts = given(ctx, 2, r * c, ctx.flag("real"))
    kw, want = options(ctx)
    t = -1
    if ctx.flag("slice"):
        t = kw["slice"] = 0
    with plots(ctx) as rec:
        ntm.plot_hex_grid(trajectory(ctx, acts), shape=(r, c), **kw)
    axes = [a for a in rec.all_axes() if a.patches]
    ctx.check("one grid", len(axes) == 1 and rec.shown == 1)
    ax = axes[0]
    ctx.check("the title", ax.title == want["title"])
    ctx.check("the first row is at the top", ax.inverted)
    at = hexagons(ctx, ax.patches, r, c)
    values = acts[t]
    for (i, j), p in at.items():
        kind, cmap, lo, hi, x = p.kw["facecolor"]
        ctx.check("the colour comes from the colormap", kind == "rgba" and cmap == want["cmap"])
        ctx.eq("the colour of a cell is that of its activity", x, values[i * c + j])
        check_range(ctx, want, lo, hi, values)


def check_range(ctx, want, lo, hi, values):
    if want["vmin"] is not None:
        ctx.eq("the range of values", [lo, hi], [want["vmin"], want["vmax"]])
    else:
        ctx.all("the range of values", [ctx.both(x >= lo, x <= hi) for x in values])
        ctx.check("the range of values is tight", ctx.both(ctx.either(*[x == lo for x in values]), ctx.either(*[x == hi for x in values])))


@harness(quick=[{"r": 2, "c": 2, "T": 3}, {"r": 3, "c": 1, "T": 2}, {"r": 2, "c": 3, "T": 1}, {"r": 3, "c": 2, "T": 2}],
         thorough=[{"r": r, "c": c, "T": 4} for r in (1, 2, 3, 4, 5) for c in (1, 2, 3, 4)])
def hex_animated(ctx, r, c, T):
    """the frames are the timesteps in order, over and over"""
    ntm = ctx.ntm
    acts = given(ctx, T, r * c)
    kw, want = options(ctx)
    save = ctx.flag("save")
    with plots(ctx) as rec:
        ntm.animate_hex(trajectory(ctx, acts), shape=(r, c), save=save, **kw)
        axes = [a for a in rec.all_axes() if a.collections]
        ctx.check("one grid, one animation", len(axes) == 1 and len(axes[0].collections) == 1 and len(rec.animations) == 1 and rec.shown == 1)
        ctx.check("saved if asked for", len(rec.saved) == (1 if save else 0))
        p = axes[0].collections[0]
        at = hexagons(ctx, p.patches, r, c)
        ctx.check("the title and the colormap", axes[0].title == want["title"] and name(p.cmap) == want["cmap"] and axes[0].inverted)
        if want["vmin"] is not None:
            ctx.eq("the range of values", [p.vmin, p.vmax], [want["vmin"], want["vmax"]])
        where = {id(q): ij for ij, q in at.items()}
        k = 0
        for _ in rec.animations[0].steps(2 * T):
            k += 1
            shown = rows(p.array)
            ctx.check("one value for every cell", len(shown) == r * c)
            ctx.eq("a frame shows the activities of its timestep", shown, [acts[k % T][i * c + j] for i, j in (where[id(q)] for q in p.patches)])


@harness(quick=[{"what": w} for w in ("grid", "line", "hex", "figures")], thorough=[{"what": w, "T": 300} for w in ("grid", "line", "hex", "figures")], path_seconds=90)
def many(ctx, what, T=130):
    """more than a hundred timesteps: animations to the end and on; tens of figures"""
    ntm = ctx.ntm
    if what == "line":
        T = 70 if T < 200 else 120
    if what == "figures":
        T = 25 if T < 200 else 60
    n = 6 if what == "grid" else 3 if what == "line" else 4
    acts = [[(t * t + 3 * k) % 17 - 4 for k in range(n)] for t in range(T)]
    acts[ctx.choice("where", [T - 1, 1])][1] = ctx.int("a", -9, 9)
    want = {"title": "", "cmap": "Greys", "vmin": None, "vmax": None}
    with plots(ctx) as rec:
        if what == "figures":
            ntm.plot_grid_multiple([[a[:2], a[2:]] for a in acts])
            shown = [a for a in rec.all_axes() if a.images]
            ctx.check("one figure for each", len(shown) == T and len({id(a.figure) for a in shown}) == T and all(len(a.images) == 1 for a in shown))
            ctx.eq("the images show the activities", [rows(a.images[0].data) for a in shown], [[a[:2], a[2:]] for a in acts])
        elif what == "hex":
            ntm.animate_hex(trajectory(ctx, acts), shape=(2, 2))
            ax = [a for a in rec.all_axes() if a.collections][0]
            p = ax.collections[0]
            where = {id(q): ij for ij, q in hexagons(ctx, p.patches, 2, 2).items()}
            frames = []
            for _ in rec.animations[0].steps(2 * T + 1):
                frames.append(rows(p.array))
            cells = [where[id(q)] for q in p.patches]
            ctx.eq("the frames, in order, over and over", frames, [[acts[k % T][i * 2 + j] for i, j in cells] for k in range(1, 2 * T + 2)])
        else:
            ntm.animate_activities(acts, shape=(2, 3) if what == "grid" else (3,), with_timestep=True)
            frames = [[a[:3], a[3:]] for a in acts] if what == "grid" else [[acts[s] if s <= t else [0, 0, 0] for s in range(T)] for t in range(T)]
            ax, im = one_image(ctx, rec, want, frames[0])
            k = 0
            for _ in rec.animations[0].steps(T + 2):
                k += 1
                if k < 3 or k > T - 3 or k % 16 == 3:
                    ctx.eq("a frame shows the activities of its timestep", rows(im.data), frames[k % T])
                ctx.check("the title of a frame", ax.title == "timestep: %d" % (k % T + 1))
