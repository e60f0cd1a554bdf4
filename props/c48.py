"""C48: plots of series."""
from sx.harness import harness
from .fakeplot import plots, rows

BOUNDS = ("up to 4 series of up to 4 arbitrary reals or integers (lists and arrays), every combination of options of plot1D with texts, "
          "numbers and lists; trajectories of up to 6 activities with repeated values for Poincaré and bifurcation plots; every simple, looped or parallel "
          "graph of 3 nodes for degree distributions; "
          "7 series of 12 values (thorough: 25 of 60); 2 series of 150 values and 12 of 20 (thorough: 400), degrees up to 52 (thorough: 135).")

OUTSIDE = ("how matplotlib draws what it is given (it is replaced by a recorder); more timesteps than the trajectories have; nodes without "
           "connections in degree distributions (the bars begin at degree 1).")


def numbers(ctx, name, n, real=False):
    return [(ctx.real if real else ctx.int)("%s%d" % (name, i), -9, 9) for i in range(n)]


def axes_of(rec):
    """the primary axes and its twin"""
    all_ = rec.all_axes()
    first = [a for a in all_ if a.twin is None]
    return first + [a for a in all_ if a.twin is not None and a.twin in first]


def drawn(ctx, ax):
    return [(list(rows(line.x)), list(rows(line.y))) for line in ax.lines]


def pick(x, i):
    return x[i] if isinstance(x, list) else x


@harness(quick=[{"k": 1, "n": 3, "nested": False}, {"k": 1, "n": 2, "nested": True}, {"k": 2, "n": 2, "nested": True},
                {"k": 3, "n": 2, "nested": True}, {"k": 4, "n": 1, "nested": True}], thorough=[{"k": 5, "n": 2, "nested": True}, {"k": 6, "n": 1, "nested": True}])
def series(ctx, k, n, nested):
    """every series once, in order, on alternating axes, with its label and colour"""
    ntm = ctx.ntm
    real = ctx.flag("real")
    x = numbers(ctx, "x", n, real)
    ys = [numbers(ctx, "y%d_" % i, n, real) for i in range(k)]
    kw = {}
    if k >= 2 and ctx.flag("twinx"):
        kw["twinx"] = True
    kind = ctx.choice("texts", ["none", "single", "lists"])
    if kind == "single":
        kw.update(color="r", label=ctx.choice("label", ["a label", 0, 1.5]), ylabel="the y", legend={"loc": "best"})
    elif kind == "lists":
        kw.update(color=["c%d" % i for i in range(k)], label=ctx.choice("label", [["l%d" % i for i in range(k)], list(range(k))]),
                  ylabel=["y0", "y1"], xlabel="the x")
    kind = ctx.choice("limits", ["none", "pair", "list"])
    xlim, ylim = None, None
    if kind != "none":
        xlim = kw["xlim"] = (numbers(ctx, "xl", 2)[0], 10)
        lo = numbers(ctx, "yl", 2)
        ylim = kw["ylim"] = (lo[0], 10) if kind == "pair" else [(lo[0], 10), (lo[1], 11)]
    if ctx.flag("title"):
        kw["title"] = "a title"
        kw["tight_layout"] = {"pad": 1}
    array = nested and ctx.flag("arrays")
    import numpy as np
    y = ys[0] if not nested else [as_array(ctx, s) if array else list(s) for s in ys]
    with plots(ctx) as rec:
        ntm.plot1D(x, y, **kw)
    axes = axes_of(rec)
    m = 2 if kw.get("twinx") else 1
    ctx.check("the axes", len(axes) == m and rec.shown == 1)
    for j, ax in enumerate(axes):
        mine = list(range(j, k, m))
        ctx.eq("the series of an axis, in order", drawn(ctx, ax), [(x, ys[i]) for i in mine])
        for line, i in zip(ax.lines, mine):
            want = {a: pick(kw[a], i) for a in ("label", "color") if a in kw}
            ctx.check("the label and the colour of a series", {a: line.args.get(a) for a in want} == want and
                      ("label" in kw or line.args.get("label") is None) and ("color" in kw or line.args.get("color", line.args.get("c")) is None))
        # the last series of an axis decides the label of the axis
        last = mine[-1]
        ctx.check("the label of the y-axis", ax.ylabel == (pick(kw["ylabel"], last % 2) if "ylabel" in kw else ""))
        ctx.check("the legend", (len(ax.legends) > 0 and all(l == {"loc": "best"} for l in ax.legends)) == ("legend" in kw))
        ctx.eq("the limits of the y-axis", tuple(ax.ylim_), (None, None) if ylim is None else pick(ylim, last % 2))
        ctx.eq("the limits of the x-axis", tuple(ax.xlim_), (None, None) if xlim is None else xlim)
    ctx.check("the label of the x-axis", (axes[0].xlabel or axes[-1].xlabel) == kw.get("xlabel", ""))
    ctx.check("the title", [a.title for a in axes if a.title] == (["a title"] if "title" in kw else []))


def as_array(ctx, items):
    import numpy as np
    from sx import env
    return env._objarray(items) if env._has_sym(items) else np.array(items)


@harness(quick=[{}])
def twin_needs_two(ctx):
    """two axes need two series"""
    ntm = ctx.ntm
    a, b = numbers(ctx, "a", 2), numbers(ctx, "b", 2)
    y = ctx.choice("y", [0, 1, 2])
    with plots(ctx):
        ctx.raises("two axes need series", lambda: ntm.plot1D([1, 2], [[a], [a, 3], a][y] if y != 1 else [a, b[0]], twinx=True))


@harness(quick=[{"T": 3, "n": 2}, {"T": 1, "n": 2}, {"T": 2, "n": 3}], thorough=[{"T": 5, "n": 3}])
def animated(ctx, T, n):
    """one frame for every timestep, in order"""
    ntm = ctx.ntm
    x = numbers(ctx, "x", n)
    ys = [numbers(ctx, "y%d_" % t, n) for t in range(T)]
    y = ys
    if ctx.flag("trajectory"):
        labels = ctx.choice("labels", [list(range(n)), list(range(n))[::-1]])
        y = [ntm.State(activities={k: row[k] for k in labels}) for row in ys]
    save = ctx.flag("save")
    with plots(ctx) as rec:
        ntm.animate_plot1D(x, y, save=save)
        axes = [a for a in rec.all_axes() if a.lines]
        ctx.check("one animation", len(axes) == 1 and len(axes[0].lines) == 1 and len(rec.animations) == 1 and rec.shown == 1)
        ctx.check("saved if asked for", len(rec.saved) == (1 if save else 0))
        ctx.eq("the first frame", drawn(ctx, axes[0]), [(x, ys[0])])
        t = 0
        for _ in rec.animations[0].steps(T + 2):
            ctx.eq("the frame of a timestep", drawn(ctx, axes[0]), [(x, ys[t])])
            t += 1
        ctx.check("one frame for every timestep", t == T)


@harness(quick=[{"k": 1, "T": 4, "m": 4, "nested": False}, {"k": 2, "T": 4, "m": 3, "nested": True}, {"k": 1, "T": 3, "m": 1, "nested": False},
                {"k": 3, "T": 2, "m": 2, "nested": True}, {"k": 1, "T": 5, "m": 3, "nested": False}, {"k": 2, "T": 6, "m": 2, "nested": True}],
         thorough=[{"k": 2, "T": T, "m": m, "nested": True} for T in (4, 5, 6, 7) for m in range(1, T + 1)])
def poincare(ctx, k, T, m, nested):
    """the pairs of successive values of the last timesteps"""
    ntm = ctx.ntm
    acts = [numbers(ctx, "a%d_" % i, T, ctx.flag("real")) for i in range(k)]
    kw = axis_options(ctx)
    with plots(ctx) as rec:
        ntm.poincare_plot(acts if nested else acts[0], m, **kw)
    axes = [a for a in rec.all_axes()]
    ctx.check("one plot", len(axes) == 1 and rec.shown == 1)
    points = [list(zip(rows(s.x), rows(s.y))) for s in axes[0].scatters]
    ctx.eq("a series for every trajectory", len(points), k)
    for a, p in zip(acts, points):
        last = a[T - m:]
        ctx.eq("the pairs of successive values", sorted_pairs(ctx, p), sorted_pairs(ctx, list(zip(last, last[1:]))))
    check_axis(ctx, axes[0], kw)


def sorted_pairs(ctx, pairs):
    return [tuple(p) for p in pairs]


def axis_options(ctx, limits=True):
    kw = {}
    if ctx.flag("texts"):
        kw.update(xlabel="the x", ylabel="the y", title="a title")
    if limits and ctx.flag("limits"):
        lo = numbers(ctx, "l", 2)
        kw.update(xlim=(lo[0], 10), ylim=(lo[1], 11))
    return kw


def check_axis(ctx, ax, kw):
    ctx.check("the labels and the title", (ax.xlabel, ax.ylabel, ax.title) == tuple(kw.get(a, "") for a in ("xlabel", "ylabel", "title")))
    ctx.eq("the limits", [tuple(ax.xlim_), tuple(ax.ylim_)], [kw.get("xlim", (None, None)), kw.get("ylim", (None, None))])


@harness(quick=[{"k": 1, "T": 3, "m": 3}, {"k": 2, "T": 3, "m": 2}, {"k": 1, "T": 4, "m": 1}, {"k": 3, "T": 2, "m": 1}], thorough=[{"k": 1, "T": 5, "m": 4}, {"k": 2, "T": 4, "m": 3}])
def bifurcation(ctx, k, T, m):
    """above every x the values of the last timesteps"""
    ntm = ctx.ntm
    real = ctx.flag("real")
    x = numbers(ctx, "x", k, True)
    acts = [numbers(ctx, "a%d_" % i, T, real) for i in range(k)]
    kw = axis_options(ctx, False)
    with plots(ctx) as rec:
        ntm.bifurcation_plot(x, acts, m, **kw)
    axes = [a for a in rec.all_axes()]
    ctx.check("one plot", len(axes) == 1 and rec.shown == 1)
    points = [(px, py) for s in axes[0].scatters for px, py in zip(rows(s.x), rows(s.y))]
    want = [(x[i], a) for i in range(k) for a in acts[i][T - m:]]
    same = lambda p, q: ctx.both(p[0] == q[0], p[1] == q[1])
    for p in points:
        ctx.check("only values of the last timesteps", ctx.either(*[same(p, q) for q in want]))
    for q in want:
        ctx.check("all values of the last timesteps", ctx.either(*[same(p, q) for p in points]))
    check_axis(ctx, axes[0], kw)


@harness(quick=[{"n": 3}], thorough=[{"n": 4}])
def degrees(ctx, n):
    """the number of nodes of every degree, and the distribution given"""
    ntm = ctx.ntm
    net = ntm.Network(n)
    count = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if (i, j) in ((0, 1), (1, 0), (1, 1), (2, 0), (1, 2)) and ctx.flag("edge"):
                count[i][j] += 1
                net.add_edge(i, j)
    kw = {}
    if count[0][1] and ctx.flag("parallel"):
        net.add_edge(0, 1, again=True)
        count[0][1] += 1
    kind = ctx.choice("kind", ["in_degree", "out_degree", "degree", "both"])
    ins = [sum(count[i][j] for i in range(n)) for j in range(n)]
    outs = [sum(count[j]) for j in range(n)]
    if kind in ("in_degree", "out_degree"):
        kw[kind] = True
    elif kind == "both":
        kw.update(in_degree=True)
    deg = ins if kw.get("in_degree") else outs if kw.get("out_degree") else [net.degree(i) for i in range(n)]
    if not ctx.flag("plain"):
        c = ctx.int("c", -9, 9)
        kw.update(xlabel="X", ylabel_freq="F", ylabel_prob="P", title="a title", equation=lambda k: k * 10 + c, equation_text="text",
                  equation_x=0.1, equation_y=0.2, color="g")
    with plots(ctx) as rec:
        ntm.plot_degree_distribution(net, **kw)
    ax = axes_of(rec)
    ctx.check("one plot", rec.shown == 1 and len(ax) == (2 if "equation" in kw else 1))
    bars = [(d, h) for s in ax[0].bars for d, h in zip(rows(s.x), rows(s.y))]
    top = max(deg)
    ctx.check("a bar for every degree", bars == [(d, deg.count(d)) for d in range(1, top + 1)])
    ctx.check("the labels", ax[0].xlabel == kw.get("xlabel", "Node degree") and ax[0].ylabel == kw.get("ylabel_freq", "Frequency"))
    if "equation" in kw:
        ctx.eq("the distribution", drawn(ctx, ax[1]), [(list(range(1, top + 1)), [k * 10 + c for k in range(1, top + 1)])])
        ctx.check("the text and the label", ax[1].ylabel == "P" and ax[1].texts == [(0.1, 0.2, "text")])
    ctx.check("the title", [a.title for a in ax if a.title] == (["a title"] if "title" in kw else []))


@harness(quick=[{"k": 7, "T": 12}], thorough=[{"k": 25, "T": 60}])
def larger(ctx, k, T):
    """more and longer series"""
    ntm = ctx.ntm
    x = [0.5 * i for i in range(T)]
    ys = [[(i * i + j * 3) % 13 for i in range(T)] for j in range(k)]
    ys[k - 1][T - 1], ys[2][0] = ctx.int("a", -9, 9), ctx.int("b", -9, 9)
    labels = ["l%d" % i for i in range(k)]
    what = ctx.choice("what", ["series", "twin", "animated", "poincare", "bifurcation"])
    m = 11
    with plots(ctx) as rec:
        if what in ("series", "twin"):
            ntm.plot1D(x, [list(y) for y in ys], label=labels, color=labels, **({"twinx": True} if what == "twin" else {}))
        elif what == "animated":
            ntm.animate_plot1D(x, [list(y) for y in ys])
            axes = [a for a in rec.all_axes() if a.lines]
            frames = [drawn(ctx, axes[0]) for _ in rec.animations[0].steps(k + 2)]
        elif what == "poincare":
            ntm.poincare_plot([list(y) for y in ys], m)
        else:
            ntm.bifurcation_plot(x[:k], [list(y) for y in ys], m)
    axes = axes_of(rec)
    if what in ("series", "twin"):
        step = 2 if what == "twin" else 1
        for j, ax in enumerate(axes):
            ctx.eq("the series of an axis, in order", drawn(ctx, ax), [(x, y) for y in ys[j::step]])
            ctx.check("labels and colours", [(l.args.get("label"), l.args.get("color")) for l in ax.lines] == [(l, l) for l in labels[j::step]])
    elif what == "animated":
        ctx.eq("one frame for every timestep", frames, [[(x, y)] for y in ys])
    elif what == "poincare":
        points = [list(zip(rows(s.x), rows(s.y))) for s in axes[0].scatters]
        ctx.eq("the pairs of successive values", points, [list(zip(y[T - m:], y[T - m + 1:])) for y in ys])
    else:
        points = [(px, py) for s in axes[0].scatters for px, py in zip(rows(s.x), rows(s.y))]
        rest = [(x[i], a) for i in range(k) for a in ys[i][T - m:]]
        same = lambda p, q: ctx.both(p[0] == q[0], p[1] == q[1])
        ctx.check("every value of the last timesteps", ctx.both(*[ctx.either(*[same(p, q) for p in points if p[0] == q[0]]) for q in rest]))
        ctx.check("only values of the last timesteps", ctx.both(*[ctx.either(*[same(p, q) for q in rest if p[0] == q[0]]) for p in points]))


@harness(quick=[{"what": w} for w in ("poincare", "many", "bifurcation", "degrees")], thorough=[{"what": w, "n": 400} for w in ("poincare", "many", "bifurcation", "degrees")], path_seconds=90)
def long_series(ctx, what, n=150):
    """hundreds of values, many series, large degrees"""
    ntm = ctx.ntm
    if what == "degrees":
        net = ntm.Network(n)
        hub = ctx.choice("hub", [0, n - 1])
        m = n // 3 + int(ctx.int("m", 0, 2))
        for i in range(m):
            net.add_edge(hub, (hub + i + 1) % n)
        with plots(ctx) as rec:
            ntm.plot_degree_distribution(net, out_degree=True)
        bars = [(d, h) for s in rec.all_axes()[0].bars for d, h in zip(rows(s.x), rows(s.y))]
        ctx.check("a bar for every degree", bars == [(d, 1 if d == m else 0) for d in range(1, m + 1)])
        return
    k, T, m = {"poincare": (2, n, n - 10), "many": (12, 20, 6), "bifurcation": (2, n, n - 10)}[what]
    acts = [[(t * t * 5 + 3 * i + t) % 997 for t in range(T)] for i in range(k)]
    acts[k - 1][ctx.choice("where", [T - 1, T - m, T - m - 1])] = ctx.int("a", -9, 9)
    with plots(ctx) as rec:
        if what == "bifurcation":
            ntm.bifurcation_plot([0.5 * i for i in range(k)], [list(a) for a in acts], m)
        else:
            ntm.poincare_plot([list(a) for a in acts], m)
    ax = rec.all_axes()[0]
    if what == "bifurcation":
        points = [(px, py) for s in ax.scatters for px, py in zip(rows(s.x), rows(s.y))]
        for i in range(k):
            got, last = [p[1] for p in points if p[0] == 0.5 * i], acts[i][T - m:]
            for v in last:
                ctx.check("every value of the last timesteps", ctx.either(*[v == p for p in got]))
            for p in got:
                ctx.check("only values of the last timesteps", ctx.either(*[v == p for v in last]))
    else:
        points = [list(zip(rows(s.x), rows(s.y))) for s in ax.scatters]
        ctx.eq("the pairs of successive values", points, [list(zip(a[T - m:], a[T - m + 1:])) for a in acts])
