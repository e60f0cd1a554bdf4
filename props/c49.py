"""C49: drawings of networks, tours and turtles."""
import os
import shutil
import tempfile

from sx.harness import harness
from .fakeplot import plots, rows

BOUNDS = ("networks of up to 4 nodes (with labels of several kinds and loops), every layout and option; trajectories of up to 4 networks "
          "with layouts and colours per timestep; tours of 3 and 4 arbitrary points; turtles with up to 4 segments of arbitrary real coordinates; "
          "11 networks of 12 to 14 nodes (thorough: 25 of 30); 120 frames (thorough: 400), 60 nodes with up to 4 parallel edges, turtles with 6000 segments.")

OUTSIDE = "how networkx and matplotlib draw what they are given (they are replaced by a recorder); the positions a layout computes."

LAYOUTS = ["shell", "spring", "planar", "kamada-kawai"]


def network(ctx, labels, name="", free=True):
    """some network of these nodes, its edges"""
    net = ctx.ntm.Network()
    for x in labels:
        net.add_node(x)
    pairs = [(labels[i], labels[(i + 1) % len(labels)]) for i in range(len(labels))] + [(labels[-1], labels[0]), (labels[0], labels[0])]
    edges = []
    for i, (a, b) in enumerate(dict.fromkeys(pairs)):
        if ctx.flag("edge%s" % name) if free else i % 2:
            net.add_edge(a, b)
            edges.append((a, b))
    return net, edges


def check_drawn(ctx, d, nodes, edges, where, options):
    ctx.check("every node once", sorted(map(str, d[0])) == sorted(map(str, nodes)) and set(d[0]) == set(nodes))
    ctx.check("every edge", sorted(map(str, (tuple(e[:2]) for e in d[1]))) == sorted(map(str, edges)))
    ctx.check("the layout", d[2] == where)
    ctx.check("the options", {k: d[3].get(k) for k in options} == options)


@harness(quick=[{"labels": [0, 1, 2]}, {"labels": ["b", "a"]}, {"labels": [7]}])
def one_network(ctx, labels):
    """a network is drawn with its nodes, edges and layout"""
    ntm = ctx.ntm
    net, edges = network(ctx, labels)
    where = ctx.choice("layout", ["shell", "spring", {x: (i, -i) for i, x in enumerate(labels)}, None, "elsewhere"])
    options, kw = {}, {}
    if ctx.flag("options"):
        options = {"node_color": ctx.choice("colour", ["r", ["r", "g", "b"]]), "node_size": 7, "with_labels": True}
        kw = dict(options)
    if where is not None:
        kw["layout"] = where
    with plots(ctx) as rec:
        if where == "elsewhere":
            ctx.raises("no such layout", lambda: ntm.plot_network(net, **kw))
            return
        ntm.plot_network(net, **kw)
    ctx.check("drawn once", len(rec.drawn) == 1 and rec.shown == 1)
    check_drawn(ctx, rec.drawn[0], labels, edges, where or "shell", options)


@harness(quick=[{"T": 2}, {"T": 1}, {"T": 3, "free": 1}, {"T": 4, "free": 3}], thorough=[{"T": 3}, {"T": 4, "free": 1}, {"T": 5, "free": 3}])
def animated(ctx, T, free=0):
    """one frame for every timestep, with its network, layout, colour and title"""
    ntm = ctx.ntm
    nets = [network(ctx, list(range(1 + t % 2, 3)), str(t), t >= free) for t in range(T)]
    trajectory = [ntm.State(network=net) for net, _ in nets]
    given = ctx.choice("layout", ["none", "one", "list", "tuple", "positions"])
    kw, where = {}, ["shell"] * T
    pos = {i: (i, -i) for i in range(4)}
    if given == "one":
        kw["layout"] = ctx.choice("which", LAYOUTS)
        where = [kw["layout"].replace("-", "_")] * T
    elif given == "positions":
        kw["layout"] = pos
        where = [pos] * T
    elif given in ("list", "tuple"):
        some = [pos if t == 1 else LAYOUTS[(t + 1) % 4] for t in range(T)]
        kw["layout"] = some if given == "list" else tuple(some)
        where = [x if isinstance(x, dict) else x.replace("-", "_") for x in some]
    colours = ctx.choice("colour", [None, "r", {t: "c%d" % t for t in range(T)}])
    if colours is not None:
        kw["node_color"] = colours
    wanted = [{"node_color": "b" if colours is None else colours if isinstance(colours, str) else colours[t]} for t in range(T)]
    steps = ctx.flag("with_timestep")
    kw["with_timestep"] = steps
    if ctx.flag("options"):
        kw.update(with_labels=False, with_arrows=False, node_size=9)
        for w in wanted:
            w.update(with_labels=False, arrows=False, node_size=9)
    save, show = ctx.flag("save"), ctx.flag("show")
    if save and not show or not save and ctx.flag("show_given"):   # shown if nothing is said
        kw["show"] = show
    else:
        show = True
    with plots(ctx) as rec:
        ani = ntm.animate_network(trajectory, save=save, **kw)
        ctx.check("one animation", len(rec.animations) == 1 and ani is rec.animations[0])
        ctx.check("shown and saved if asked for", rec.shown == (1 if show else 0) and len(rec.saved) == (1 if save else 0))
        t = 0
        for _ in ani.steps(T + 1):
            ctx.check("drawn once", len(rec.drawn) == 1)
            check_drawn(ctx, rec.drawn[0], list(nets[t][0].nodes), nets[t][1], where[t], wanted[t])
            if steps:
                ctx.check("the title", [a.title for a in rec.all_axes()] == ["timestep: %d" % (t + 1)])
            t += 1
        ctx.check("one frame for every timestep", t == T)


@harness(quick=[{"n": 3}, {"n": 4}])
def tour(ctx, n):
    """the points of a tour at their positions, joined in the order of the tour"""
    ntm = ctx.ntm
    points = [(float(i % 2) + i / 8, i / 4) for i in range(n)]
    net = ntm.HopfieldTankTSPNet(points)
    left = list(range(n))
    order = []
    for _ in range(n):
        x = ctx.choice("next", left)
        left.remove(x)
        order.append(x)
    matrix = [[1 if order[j] == i else 0 for j in range(n)] for i in range(n)]
    G, pos, length = net.get_tour_graph(points, matrix)
    with plots(ctx) as rec:
        net.plot_tour(G, pos)
    ctx.check("drawn once", len(rec.drawn) == 1 and rec.shown == 1)
    nodes, edges, where, _ = rec.drawn[0]
    ctx.check("every point", sorted(nodes) == list(range(n)))
    ctx.check("joined in the order of the tour", sorted(tuple(sorted(e[:2])) for e in edges) ==
              sorted(tuple(sorted((order[i], order[(i + 1) % n]))) for i in range(n)))
    ctx.check("at their positions", {k: tuple(p) for k, p in where.items()} == dict(enumerate(points)))


def segments(axes):
    """what is drawn, as segments"""
    out = []
    for line in axes.lines:
        x, y = rows(line.x), rows(line.y)
        out += [((x[i], y[i]), (x[i + 1], y[i + 1])) for i in range(len(x) - 1) if x[i] is not None and x[i + 1] is not None]
    return out


def turtle(ctx, n):
    t = ctx.ntm.Turtle()
    given = []
    for i in range(n):
        x0, x1, y0, y1 = [ctx.real("%s%d" % (a, i), -9, 9) for a in ("xa", "xb", "ya", "yb")]
        t.trajectory.append(([x0, x1], [y0, y1]))
        given.append(((x0, y0), (x1, y1)))
    return t, given


@harness(quick=[{"n": 0}, {"n": 1}, {"n": 3}])
def turtle_plot(ctx, n):
    """every segment is drawn"""
    t, given = turtle(ctx, n)
    kw = {"marker": "o"} if ctx.flag("marker") else {}
    with plots(ctx) as rec:
        t.plot(**kw)
    axes = rec.all_axes()
    ctx.check("one drawing", len(axes) == 1 and rec.shown == 1)
    ctx.eq("the segments", segments(axes[0]), given)
    ctx.check("the marker", all(line.args.get("marker", "") == kw.get("marker", "") for line in axes[0].lines))


@harness(quick=[{"n": 1}, {"n": 2}], thorough=[{"n": 3}])
def turtle_animation(ctx, n):
    """one more segment in every frame, within the limits"""
    t, given = turtle(ctx, n)
    repeat, save = ctx.flag("repeat"), ctx.flag("save")
    with plots(ctx) as rec:
        t.animate(repeat=repeat, save=save)
        axes = rec.all_axes()
        ctx.check("one animation", len(axes) == 1 and len(rec.animations) == 1 and rec.shown == 1 and len(rec.saved) == (1 if save else 0))
        inside(ctx, axes[0], given)
        k = 0
        for r in range(2 if repeat else 1):
            for _ in rec.animations[0].steps(n + 1):
                k += 1
                if k % n or not repeat:
                    ctx.eq("the segments up to this frame", segments(axes[0]), given[:(k - 1) % n + 1])
                inside(ctx, axes[0], given)
        ctx.check("one frame for every segment", k == (2 * n if repeat else n))


def inside(ctx, axes, given):
    (x0, x1), (y0, y1) = axes.xlim_, axes.ylim_
    ctx.all("everything is within the limits", [ctx.both(ctx.both(x0 <= x, x <= x1), ctx.both(y0 <= y, y <= y1)) for s in given for x, y in s])


@harness(quick=[{}])
def page(ctx):
    """the page that shows a network is written where asked and opened unless in a notebook"""
    ntm = ctx.ntm
    net, _ = network(ctx, [0, 1])
    G = net.to_networkx()
    folder = tempfile.mkdtemp()
    try:
        name = os.path.join(folder, "page.html")
        if ctx.flag("before"):
            with open(name, "w") as f:
                f.write("something else, " * 1000)
        notebook = ctx.flag("notebook")
        with plots(ctx) as rec:
            ntm.vis.show_network(G, name, is_notebook=notebook)
        with open(name) as f:
            ctx.check("the page shows the network", f.read() == ntm.vis.get_html(G))
        ctx.check("opened unless in a notebook", [s[0] for s in rec.saved] == ([] if notebook else ["opened"]))
        if not notebook:
            ctx.check("this page is opened", rec.saved[0][1].endswith(os.path.realpath(name)))
    finally:
        shutil.rmtree(folder)


@harness(quick=[{"n": 12, "T": 11}], thorough=[{"n": 30, "T": 25}])
def larger(ctx, n, T):
    """more nodes and frames"""
    ntm = ctx.ntm
    nets, arcs = [], []
    for t in range(T):
        net, es = ntm.Network(n + t % 3), []
        for i in range(n):
            if (i + t) % 4 or i == n - 1:
                net.add_edge(i, (i * 3 + t) % n)
                es.append((i, (i * 3 + t) % n))
        nets.append(net)
        arcs.append(es)
    layouts = [LAYOUTS[t * t % 4] for t in range(T)] if ctx.flag("layouts") else "shell"
    colours = {t: "c%d" % t for t in range(T)}
    with plots(ctx) as rec:
        ani = ntm.animate_network([ntm.State(network=net) for net in nets], layout=layouts, node_color=colours, with_timestep=True)
        t = 0
        for _ in ani.steps(T + 1):
            ctx.check("drawn once", len(rec.drawn) == 1)
            check_drawn(ctx, rec.drawn[0], list(nets[t].nodes), arcs[t], (layouts if isinstance(layouts, str) else layouts[t]).replace("-", "_"), {"node_color": colours[t]})
            ctx.check("the title", [a.title for a in rec.all_axes()] == ["timestep: %d" % (t + 1)])
            t += 1
        ctx.check("one frame for every timestep", t == T)
    t, given = turtle(ctx, n)
    with plots(ctx) as rec:
        t.plot()
    ctx.eq("the segments", segments(rec.all_axes()[0]), given)


@harness(quick=[{"T": 120, "n": 5}, {"T": 2, "n": 60}], thorough=[{"T": 400, "n": 5}, {"T": 2, "n": 200}], path_seconds=90)
def many_frames(ctx, T, n):
    """more than a hundred frames with a layout each; many nodes with parallel edges"""
    ntm = ctx.ntm
    net, es = ntm.Network(n), []
    for i in range(n):
        for j in {(i + 1) % n, i * i % n}:
            for _ in range(1 + i % 3):
                net.add_edge(i, j)
                es.append((i, j))
    extra = ctx.choice("extra", [None, (0, 1), (n - 1, n - 1)])
    if extra:
        net.add_edge(*extra)
        es.append(extra)
    layouts = [{i: (i + t, i - t) for i in range(n)} if t % 3 else LAYOUTS[t % 4] for t in range(T)]
    where = [x if isinstance(x, dict) else x.replace("-", "_") for x in layouts]
    with plots(ctx) as rec:
        ani = ntm.animate_network([ntm.State(network=net)] * T, layout=layouts if ctx.flag("list") else tuple(layouts), with_timestep=True)
        t = 0
        for _ in ani.steps(T + 1):
            ctx.check("drawn once", len(rec.drawn) == 1)
            check_drawn(ctx, rec.drawn[0], range(n), es, where[t], {})
            ctx.check("the title", [a.title for a in rec.all_axes()] == ["timestep: %d" % (t + 1)])
            t += 1
        ctx.check("one frame for every timestep", t == T)
    with plots(ctx) as rec:
        ntm.plot_network(net)
    check_drawn(ctx, rec.drawn[0], range(n), es, "shell", {})


@harness(quick=[{"n": 6000}], thorough=[{"n": 20000}], path_seconds=90)
def long_walks(ctx, n):
    """thousands of segments"""
    t = ctx.ntm.Turtle()
    given = [((i * i % 91, i % 7), (i * 3 % 50, i)) for i in range(n)]
    k = ctx.choice("where", [0, n - 1])
    given[k] = ((ctx.real("x", -9, 9), 2), given[k][1])
    for a, b in given:
        t.trajectory.append(([a[0], b[0]], [a[1], b[1]]))
    with plots(ctx) as rec:
        t.plot()
    ctx.eq("the segments", segments(rec.all_axes()[0]), given)
