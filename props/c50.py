"""C50: arguments that do not fit are refused."""
from sx.harness import harness
from .common import build, graph_flags, same_network

BOUNDS = ("networks of 1 to 3 nodes with 0 to 4 initial conditions (lists, arrays, dictionaries); update orders that are no UpdateOrder; topology "
          "rules that return nothing; rotation systems naming a node that is not there; operations on missing nodes and edges of every graph with 2 nodes; "
          "rings of fewer than 3 and grids of fewer than 9 cells, unknown boundaries and neighbourhoods.")

OUTSIDE = "the type and the text of the exceptions; dictionaries of the right size with wrong labels; other arguments of the wrong type."


@harness(quick=[{}])
def initial_conditions(ctx):
    """one initial condition for every node is required if there is an activity rule"""
    ntm = ctx.ntm
    n = int(ctx.int("n", 1, 3))
    net = build(ctx, list(range(n)), [(i, (i + 1) % n) for i in range(n)])
    m = int(ctx.int("m", 0, 4))
    values = ctx.ints("s", m)
    kind = ctx.choice("kind", ["list", "array", "dict", "none"])
    if kind == "array":
        import numpy as np
        given = np.array([3] * m)
    else:
        given = None if kind == "none" else list(values) if kind == "list" else dict(enumerate(values))
    if kind == "none":
        m = 0
    called = []

    def rule(c):
        called.append(c.node_label)
        return c.current_activity
    run = lambda **kw: ntm.evolve(network=net, initial_conditions=given, **kw)
    rules = ctx.choice("rules", ["activity", "topology", "both"])
    kw = {}
    if rules != "topology":
        kw["activity_rule"] = rule
    if rules != "activity":
        kw["topology_rule"] = lambda c: c.network
    kw.update(ctx.choice("until", [{"timesteps": 2}, {"input": [1]}, {"timesteps": 1}]))
    if m != n and rules != "topology":
        ctx.raises("a wrong number of initial conditions", lambda: run(**kw))
        ctx.check("nothing was evolved", not called)
    else:
        traj = run(**kw)
        ctx.check("a fitting number of initial conditions is accepted", len(traj) == kw.get("timesteps", 2))
        ctx.check("the rule is called if there is one", len(called) == (n * (len(traj) - 1) if rules != "topology" else 0))


@harness(quick=[{}])
def update_orders(ctx):
    """an update order is one of the three"""
    ntm = ctx.ntm
    U = ntm.UpdateOrder
    net = build(ctx, [0, 1], [(0, 1), (1, 0)])
    init = ctx.ints("s", 2)
    order = ctx.choice("order", ["ACTIVITIES_FIRST", None, 1, 4, U.ACTIVITIES_FIRST, U.TOPOLOGY_FIRST, U.SYNCHRONOUS])
    run = lambda: ntm.evolve(network=net, initial_conditions=init, activity_rule=lambda c: c.current_activity + 1, timesteps=3, update_order=order)
    if isinstance(order, U):
        ctx.check("accepted", len(run()) == 3)
    else:
        ctx.raises("an unknown update order", run)


@harness(quick=[{}])
def topology_rules(ctx):
    """a topology rule returns a network"""
    ntm = ctx.ntm
    net = build(ctx, [0, 1], [(0, 1), (1, 0)])
    init = ctx.ints("s", 2)
    late = int(ctx.int("late", 1, 3))
    order = ctx.choice("order", [ntm.UpdateOrder.ACTIVITIES_FIRST, ntm.UpdateOrder.TOPOLOGY_FIRST, ntm.UpdateOrder.SYNCHRONOUS])
    run = lambda: ntm.evolve(network=net, initial_conditions=init, activity_rule=lambda c: c.current_activity, timesteps=3, update_order=order,
                             topology_rule=lambda c: c.network if c.timestep != late else None, copy_network=ctx.flag("copy"))
    if late < 3:
        ctx.raises("a topology rule that returns nothing", run)
    else:
        ctx.check("accepted", len(run()) == 3)


@harness(quick=[{}])
def rotation_systems(ctx):
    """a rotation system names nodes of the network only; a refused one changes nothing"""
    labels = ctx.choice("labels", [[0, 1, 2], ["a", "b", "c"], [(0, 1), (1, 0), (1, 1)]])
    missing = ctx.choice("missing", [7, "z", (0, 0), None])
    net = build(ctx, labels, [(a, b) for a in labels for b in labels if a != b])
    before = ctx.choice("before", [None, {labels[0]: (labels[1], labels[2])}])
    if before is not None:
        net.rotation_system = before
    rs = {x: [y for y in labels if y != x] for x in labels}
    where = ctx.choice("where", ["nowhere", "key", "first", "last", "within"])
    if where == "key":
        rs[missing] = [labels[0]]
    elif where == "first":
        rs[labels[0]] = [missing] + rs[labels[0]]
    elif where == "last":
        rs[labels[2]] = rs[labels[2]] + [missing]
    elif where == "within":
        rs[labels[1]] = (labels[0], missing, labels[2])

    def assign():
        net.rotation_system = rs
    if where == "nowhere":
        assign()
        ctx.check("accepted", net.rotation_system == rs)
    else:
        ctx.raises("a node that is not there", assign)
        ctx.check("the rotation system is as before", net.rotation_system == before)


@harness(quick=[{}])
def missing_parts(ctx):
    """operations on nodes and edges that are not there fail and change nothing"""
    nodes = [0, 1]
    edges = graph_flags(ctx, nodes, multi=2)
    weights = [{"w": ctx.int("w%d" % k)} for k in range(len(edges))]
    net = build(ctx, nodes, edges, weights)
    i, j = ctx.choice("pair", [(a, b) for a in (0, 1, 2) for b in (0, 1, 2) if (a, b) not in edges])
    what = ctx.choice("what", ["update_edge", "update_indices", "remove_edge", "edge", "remove_node", "del", "in_edges", "item", "degree"])
    x = ctx.int("x")

    def do():
        if what == "update_edge":
            net.update_edge(i, j, w=x)
        elif what == "update_indices":
            net.update_edge(i, j, indices=[0], w=x)
        elif what == "remove_edge":
            net.remove_edge(i, j)
        elif what == "edge":
            net.edge(i, j)
        elif what == "remove_node":
            net.remove_node(2)
        elif what == "del":
            del net[2]
        elif what == "in_edges":
            net.in_edges(2)
        elif what == "item":
            net[2]
        else:
            ctx.choice("which", [net.degree, net.in_degree, net.out_degree])(2)
    ctx.raises("a part that is not there", do)
    before = {}
    for e, w in zip(edges, weights):
        before.setdefault(e, []).append(dict(w))
    same_network(ctx, "the network is as before", net, nodes, before)
    ctx.check("has_edge", not net.has_edge(i, j))


@harness(quick=[{}])
def automata(ctx):
    """rings have 3 cells or more, grids 9; boundaries and neighbourhoods are those known"""
    t = ctx.ntm.topology
    which = ctx.choice("which", ["ring", "ring_matrix", "grid", "grid_matrix"])
    matrix = which.endswith("_matrix")
    boundary = ctx.choice("boundary", ["periodic", "fixed", None, ""]) if matrix else "periodic"
    kw = {"boundary": boundary} if matrix else {}
    if which.startswith("ring"):
        f = t.adjacency.cellular_automaton if matrix else t.cellular_automaton
        n = int(ctx.int("n", -1, 5))
        run, ok, cells = lambda: f(n, **kw), n >= 3 and boundary == "periodic", n
    else:
        f = t.adjacency.cellular_automaton2d if matrix else t.cellular_automaton2d
        a, b = int(ctx.int("a", 0, 5)), int(ctx.int("b", 0, 5))
        kind = ctx.choice("kind", ["Moore", "von Neumann", "Hex", "moore", "Margolus", None]) if boundary == "periodic" else "Moore"
        run, cells = lambda: f(a, b, neighbourhood=kind, **kw), a * b
        ok = a * b >= 9 and boundary == "periodic" and kind in ("Moore", "von Neumann", "Hex")
        if ok and min(a, b) < 3:
            return
    if ok:
        ctx.check("accepted", len(run()) == cells)
    else:
        ctx.raises("refused", run)


@harness(quick=[{}], known=True)
def not_periodic(ctx):
    """an automaton with periodic=False is not built with a periodic boundary"""
    t = ctx.ntm.topology
    if ctx.flag("grid"):
        run, far = (lambda: t.cellular_automaton2d(3, 4, periodic=False)), (0, 3)
    else:
        n = int(ctx.int("n", 4, 6))
        run, far = (lambda: t.cellular_automaton(n, periodic=False)), (0, n - 1)
    try:
        net = run()
    except Exception:
        return
    ctx.check("periodic=False is heeded or refused", not net.has_edge(*far) and not net.has_edge(*far[::-1]))
