"""C16: 2D automaton networks."""
from sx.harness import harness
from .common import same_activities

BOUNDS = ("tori of 3x3 to 7x8 (each side at least 2r+1), r = 1, 2 and 3, Moore and von Neumann; r = 1, hexagonal, with an "
          "even number of rows; edges, weights, symmetry and rotation system of every cell; one timestep of an arbitrary "
          "function of every neighbour's activity by relative position on arbitrary activities; tori of up to 16x17 (thorough: 26x25 and 70x3) with r up to 5 "
          "(9); tori of one or two rows or columns, Moore and von Neumann.")

OUTSIDE = "hexagonal neighbourhoods of larger radius or with an odd number of rows (the layout does not close); larger tori."


def offsets(kind, r, row):
    if kind == "Moore":
        return {(x, y) for x in range(-r, r + 1) for y in range(-r, r + 1)}
    if kind == "von Neumann":
        return {(x, y) for x in range(-r, r + 1) for y in range(-r, r + 1) if abs(x) + abs(y) <= r}
    # hexagonal cells in offset rows: the rows with an even index are shifted to the right
    s = 1 if row % 2 == 0 else -1
    return {(0, 0), (0, 1), (0, -1), (1, 0), (-1, 0), (1, s), (-1, s)}


SIZES = [(3, 3), (3, 4), (4, 3), (5, 5), (6, 5), (7, 8), (4, 6), (4, 4), (8, 3)]


@harness(quick=[{"kind": k, "r": r} for k in ("Moore", "von Neumann") for r in (1, 2, 3)] + [{"kind": "Hex", "r": 1}],
         thorough=[{"kind": k, "r": r, "sizes": ((9, 9), (10, 11), (12, 10))} for k in ("Moore", "von Neumann") for r in (1, 2, 4)])
def tori(ctx, kind, r, sizes=None):
    """exactly the stated neighbourhoods"""
    ntm = ctx.ntm
    rows, cols = ctx.choice("size", [(a, b) for a, b in (sizes or SIZES) if min(a, b) >= 2 * r + 1 and (kind != "Hex" or a % 2 == 0)])
    how = ctx.choice("how", ["default", True, False])
    build = ntm.topology.cellular_automaton2d
    if how == "default":
        net = build(rows, cols, r, kind) if (kind, r) != ("Moore", 1) else build(rows, cols)
    else:
        net = build(rows=rows, cols=cols, r=r, neighbourhood=kind, ordered=how)
    n = rows * cols
    ctx.check("cells", len(net) == n and sorted(net.nodes) == list(range(n)))
    want = set()
    for a in range(rows):
        for b in range(cols):
            want |= {(a * cols + b, (a + x) % rows * cols + (b + y) % cols) for x, y in offsets(kind, r, a)}
    seen = {}
    for i, j, a in net.edges:
        seen.setdefault((i, j), []).append(dict(a))
    ctx.check("exactly the neighbours", set(seen) == want)
    ctx.check("one edge of weight 1", all(e == [{"weight": 1}] for e in seen.values()))
    ctx.check("symmetric", all((j, i) in seen for i, j in seen))
    if how is False:
        ctx.check("no rotation system", net.rotation_system is None)
        return
    rot = net.rotation_system
    ctx.check("rotation system", sorted(rot) == list(range(n)) and
              all(sorted(rot[j]) == sorted(i for i, k in want if k == j) for j in range(n)))


@harness(quick=[{"kind": "Moore", "r": 1, "rows": 3, "cols": 4}, {"kind": "Moore", "r": 2, "rows": 5, "cols": 6},
                {"kind": "von Neumann", "r": 1, "rows": 4, "cols": 3}, {"kind": "von Neumann", "r": 2, "rows": 5, "cols": 5},
                {"kind": "Hex", "r": 1, "rows": 4, "cols": 5}])
def evolved(ctx, kind, r, rows, cols):
    """a rule reads the activity of every neighbour by its relative position"""
    ntm = ctx.ntm
    n = rows * cols
    net = ntm.topology.cellular_automaton2d(rows, cols, r, kind)
    s = ctx.ints("s", n)
    m = len(offsets(kind, r, 0))
    f = ctx.fn("f", 1 + m)

    def rule(c):
        a, b = divmod(c.node_label, cols)
        by = {}
        for l, x in zip(c.neighbour_labels, c.neighbourhood_activities):
            p, q = divmod(l, cols)
            by[((p - a + r) % rows - r, (q - b + r) % cols - r)] = x
        ctx.check("every relative position once", set(by) == offsets(kind, r, a) and len(c.neighbour_labels) == m)
        return f(c.node_label, *[by[o] for o in sorted(by)])
    traj = ntm.evolve(network=net, initial_conditions=list(s), timesteps=2, activity_rule=rule)
    want = {}
    for k in range(n):
        a, b = divmod(k, cols)
        want[k] = f(k, *[s[(a + x) % rows * cols + (b + y) % cols] for x, y in sorted(offsets(kind, r, a))])
    same_activities(ctx, "activities", traj[1].activities, want)


@harness(quick=[{}])
def matrix(ctx):
    """the adjacency matrix has ones exactly at the neighbours; r = 1 and Moore if not given"""
    build = ctx.ntm.topology.adjacency.cellular_automaton2d
    rows, cols = ctx.choice("size", [(3, 3), (4, 5), (6, 3), (5, 6)])
    kw = {}
    r, kind = 1, "Moore"
    if ctx.flag("radius") and min(rows, cols) >= 5:
        r = kw["r"] = 2
    if ctx.flag("kind"):
        kind = kw["neighbourhood"] = "von Neumann"
    m = build(rows, cols, **kw)
    n = rows * cols
    ctx.check("square", len(m) == n and all(len(row) == n for row in m))
    i = int(ctx.int("i", 0, n - 1))
    a, b = divmod(i, cols)
    near = {(a + x) % rows * cols + (b + y) % cols for x, y in offsets(kind, r, a)}
    ctx.check("one exactly at the neighbours", all(m[i][j] == (1 if j in near else 0) for j in range(n)))


@harness(quick=[{"kind": k, "sizes": z} for k in ("Moore", "von Neumann", "Hex") for z in (((11, 10, 1), (10, 13, 1)), ((16, 17, 1), (11, 12, 5)))],
         thorough=[{"kind": k, "sizes": ((26, 25, 1), (20, 21, 9), (4, 70, 1), (70, 3, 1))} for k in ("Moore", "von Neumann", "Hex")], path_seconds=120)
def large(ctx, kind, sizes):
    """large tori and wide neighbourhoods"""
    ntm = ctx.ntm
    rows, cols, r = ctx.choice("size", [s for s in sizes if kind != "Hex" or s[2] == 1 and s[0] % 2 == 0])
    net = ntm.topology.cellular_automaton2d(rows=rows, cols=cols, r=r, neighbourhood=kind)
    n = rows * cols
    around = {a * cols + b: {(a + x) % rows * cols + (b + y) % cols for x, y in offsets(kind, r, a)} for a in range(rows) for b in range(cols)}
    es = list(net.edges)
    ctx.check("exactly the neighbours", len(es) == sum(map(len, around.values())) and all(i in around[j] for i, j, a in es))
    ctx.check("weights", all(dict(a) == {"weight": 1} for i, j, a in es))
    rot = net.rotation_system
    ctx.check("rotation system", sorted(rot) == list(range(n)) and
              all(sorted(rot[j]) == sorted(around[j]) and list(rot[j])[len(rot[j]) // 2] == j for j in range(n)))
    x = ctx.int("x")
    s = [(k * k) % 7 for k in range(n)]
    s[cols] = x
    traj = ntm.evolve(network=net, initial_conditions=list(s), timesteps=2,
                      activity_rule=lambda c: sum(c.neighbourhood_activities) + 100 * c.current_activity)
    ctx.eq("activities", [traj[1].activities[i] for i in range(n)], [sum(s[k] for k in around[i]) + 100 * s[i] for i in range(n)])


@harness(quick=[{}])
def narrow(ctx):
    """tori of one or two rows or columns: cells that are neighbours in two ways are so once"""
    ntm = ctx.ntm
    rows, cols = ctx.choice("size", [(2, 5), (5, 2), (1, 9), (9, 1), (2, 6), (7, 2)])
    kind = ctx.choice("kind", ["Moore", "von Neumann"])
    net = ntm.topology.cellular_automaton2d(rows, cols, 1, kind)
    want = {(a * cols + b, (a + x) % rows * cols + (b + y) % cols) for a in range(rows) for b in range(cols) for x, y in offsets(kind, 1, a)}
    es = [(i, j) for i, j, a in net.edges]
    ctx.check("exactly the neighbours, once", len(es) == len(want) and set(es) == want)
    ctx.check("rotation system", all(sorted(net.rotation_system[j]) == sorted(i for i, k in want if k == j) for j in range(rows * cols)))
