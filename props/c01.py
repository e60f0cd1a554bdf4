"""C01: every node is updated exactly once per step, synchronously; what the rule sees."""
from sx.harness import harness
from .common import UF, build, edges_of, graph_flags, in_neighbours, long_evolution, odd_evolution, same_activities

BOUNDS = ("every directed graph with up to 3 nodes (self-loops included), every multigraph with 2 nodes and up to 2 parallel "
          "edges, every subset of 4 of the edges of a 6-node graph, rings of 9; arbitrary integer activities and edge "
          "weights, an arbitrary function as rule, 2 to 4 timesteps; rotation systems: every order of up to 3 neighbours; activities that are None, falsy, containers, strings or big numbers (solver-chosen shift of a table of 15); runs of 12 timesteps on networks of 12 nodes and 24 timesteps on 5 (thorough: 30 on 24), with and without a rotation system and other labels; a node with 40 in-neighbours and 40 parallel edges (thorough: 150), 300 timesteps of 2 nodes (thorough: 1100), one network evolved, edited (5 edits, rotation system given or changed) and evolved again.")

OUTSIDE = "larger graphs, more timesteps."


def run(ctx, nodes, edges, steps, rotation=None, symbolic_labels=False, numbered=None, ics_as_list=False, order=None):
    ntm = ctx.ntm
    number = {id(n): k for k, n in enumerate(nodes)} if numbered is None else numbered
    idx = lambda n: next(k for k, x in enumerate(nodes) if x is n or x == n)
    weights = [{"w": ctx.int("w%d" % k)} for k in range(len(edges))]
    net = build(ctx, nodes, edges, weights)
    if rotation is not None:
        net.rotation_system = {n: tuple(r) for n, r in zip(nodes, rotation)}
    init = ctx.ints("s", len(nodes))
    ics = list(init) if ics_as_list else {n: s for n, s in zip(nodes, init)}
    f = UF(ctx, "rule")
    ins = in_neighbours(nodes, edges)
    calls = []

    def rule(c):
        calls.append((c.timestep, c.node_label, dict(c.activities), list(c.neighbour_labels),
                      list(c.neighbourhood_activities), c.current_activity,
                      {l: [dict(e) for e in c.connection_states[l]] for l in c.connection_states}, c.input,
                      c.past_activities, [c.activity_of(n) for n in nodes],
                      [[c.edge_data(l, "w")] + [c.edge_data(l, "w", i) for i in range(len(c.connection_states[l]))] for l in c.connection_states]))
        args = [idx(c.node_label), c.timestep, c.current_activity]
        pairs = [(idx(l), a) for l, a in zip(c.neighbour_labels, c.neighbourhood_activities)]
        if rotation is None:
            pairs.sort(key=lambda p: p[0])
        for k, a in pairs:
            args += [k, a]
        return f(*args)
    traj = ntm.evolve(network=net, initial_conditions=ics, activity_rule=rule, timesteps=steps)

    # reference: the same rule applied to the previous activities of all nodes
    prev = {k: s for k, s in enumerate(init)}
    want = [prev]
    expected_calls = []
    for t in range(1, steps):
        new = {}
        for k, n in enumerate(nodes):
            args = [k, t, prev[k]]
            nb = [idx(x) for x in (ins[n] if rotation is None else rotation[k])]
            if rotation is None:
                nb.sort()
            for x in nb:
                args += [x, prev[x]]
            new[k] = f(*args)
            expected_calls.append((t, k, nb))
        want.append(new)
        prev = new
    ctx.check("number of states", len(traj) == steps)
    for t, s in enumerate(traj):
        got = s.activities
        ctx.check("a state has exactly the nodes", len(got) == len(nodes))
        ctx.eq("activities are the rule applied to the previous activities", [got[n] for n in nodes],
               [want[t][k] for k in range(len(nodes))])
    ctx.check("one rule call per node and step", len(calls) == len(expected_calls))
    seen = set()
    for (t, label, activities, labels, neigh, cur, conn, inp, past, by_label, data) in calls:
        k = idx(label)
        seen.add((t, k))
        p = want[t - 1]
        ctx.eq("context activities", [activities[n] for n in nodes] + by_label, [p[i] for i in range(len(nodes))] * 2)
        ctx.check("context activities cover the nodes", len(activities) == len(nodes))
        ctx.eq("context current activity", cur, p[k])
        got_nb = [idx(x) for x in labels]
        nb = [idx(x) for x in (ins[nodes[k]] if rotation is None else rotation[k])]
        ctx.check("context neighbours", got_nb == nb if rotation is not None else sorted(got_nb) == sorted(nb))
        ctx.eq("neighbourhood activities aligned with labels", neigh, [p[x] for x in got_nb])
        incoming = {}
        for (i, j), w in zip(edges, weights):
            if idx(j) == k:
                incoming.setdefault(idx(i), []).append(w)
        ctx.check("connection states cover the in-edges", sorted(idx(x) for x in conn) == sorted(incoming))
        ctx.eq("connection states", [conn[x] for x in conn], [incoming[idx(x)] for x in conn])
        ctx.eq("edge data", data, [[incoming[idx(x)][0]["w"]] + [w["w"] for w in incoming[idx(x)]] for x in conn])
        ctx.check("no input, no past", inp is None and past is None)
    ctx.check("every node exactly once per step", len(seen) == len(expected_calls))


@harness(quick=[{"n": 1, "steps": 3}, {"n": 2, "steps": 4}, {"n": 3, "steps": 3, "_weight": 5}],
         thorough=[{"n": 3, "steps": 5, "_weight": 9}])
def all_graphs(ctx, n, steps):
    """every directed graph on n nodes"""
    nodes = list(range(n))
    edges = graph_flags(ctx, nodes)
    run(ctx, nodes, edges, steps, ics_as_list=True)


@harness(quick=[{"steps": 3}], thorough=[{"steps": 5}])
def multigraphs(ctx, steps):
    """two nodes, up to two parallel edges per direction"""
    nodes = [0, 1]
    edges = graph_flags(ctx, nodes, multi=2)
    run(ctx, nodes, edges, steps)


@harness(quick=[{"n": 2, "steps": 3}, {"n": 3, "steps": 2}], thorough=[{"n": 3, "steps": 4}])
def arbitrary_labels(ctx, n, steps):
    """node labels are arbitrary distinct integers"""
    nodes = [ctx.opaque("label%d" % i) for i in range(n)]
    ctx.distinct(nodes)
    ring = [(nodes[i], nodes[(i + 1) % n]) for i in range(n)]
    edges = [e for i, e in enumerate(ring) if ctx.flag("r%d" % i)] + [(n_, n_) for i, n_ in enumerate(nodes) if ctx.flag("l%d" % i)]
    run(ctx, nodes, edges, steps)


@harness(quick=[{}])
def string_labels(ctx):
    """string and tuple labels"""
    nodes = ctx.choice("labels", [["b", "a", "c"], [(0, 1), (1, 0), (0, 0)], ["x", 7, (1,)], [3, -1, 2]])
    edges = [(nodes[i], nodes[j]) for i, j in ((0, 1), (1, 0), (2, 0), (0, 0), (1, 2)) if ctx.flag("e%d%d" % (i, j))]
    run(ctx, nodes, edges, 3)


@harness(quick=[{"steps": 3}])
def rotation_systems(ctx, steps):
    """every order of the neighbourhood of each node of a 3-node graph"""
    nodes = [0, 1, 2]
    edges = [(i, j) for i in nodes for j in nodes]
    import itertools
    rotation = [ctx.choice("rot%d" % k, list(itertools.permutations(nodes))) for k in nodes]
    run(ctx, nodes, edges, steps, rotation=rotation)


@harness(quick=[{"n": 9, "steps": 3}], thorough=[{"n": 16, "steps": 4}])
def larger(ctx, n, steps):
    """a ring with chords and a disconnected node, some edges symbolic"""
    nodes = list(range(n))
    edges = [(i, (i + 1) % (n - 1)) for i in range(n - 1)] + [((i + 1) % (n - 1), i) for i in range(0, n - 1, 2)]
    extra = [(0, 0), (2, n - 2), (n - 2, 1), (3, 3), (1, 4)]
    edges += [e for e in extra if ctx.flag("x%d_%d" % e)]
    run(ctx, nodes, edges, steps, ics_as_list=True)


@harness(quick=[{"labels": k} for k in range(3)])
def odd_values(ctx, labels):
    """activities that are None, falsy, containers, strings; falsy labels"""
    odd_evolution(ctx, nodes=[(0, 1, 2), ("", 0, ()), (False, "0", (0,))][labels])


@harness(quick=[{"n": 12, "steps": 12}, {"n": 5, "steps": 24}], thorough=[{"n": 24, "steps": 30}])
def long_runs(ctx, n, steps):
    """many timesteps of a larger network, with and without a rotation system"""
    long_evolution(ctx, n=n, steps=steps, rotation=ctx.flag("rotation"), labels=ctx.choice("labels", [None, ["n%d" % i for i in range(n)], range(n + 90, 90, -1)]))


@harness(quick=[{"n": 40}], thorough=[{"n": 150}])
def hub(ctx, n):
    """a node with many in-neighbours (and many parallel edges from one of them), with and without a rotation system"""
    nodes = list(range(n))
    edges = [(i, 0) for i in nodes] + [(1, 0)] * n + [(0, i) for i in nodes[1:]]
    rotation = [tuple(nodes[::-1])] + [(0,)] * (n - 1) if ctx.flag("rotation") else None
    run(ctx, nodes, edges, 3, rotation=rotation)


@harness(quick=[{"steps": 300}], thorough=[{"steps": 1100}])
def many_steps(ctx, steps):
    """hundreds of timesteps"""
    run(ctx, [0, 1], [(0, 1), (1, 0)], steps)


@harness(quick=[{"steps": 3}])
def edited_between(ctx, steps):
    """evolving the same network again, after it was edited, starts from the network as it is now"""
    nodes = [0, 1, 2]
    net = build(ctx, nodes, [(0, 1), (1, 2), (2, 0)], [{"w": ctx.int("w%d" % k)} for k in range(3)])
    memoize, rotate = ctx.flag("memoize"), ctx.choice("rotation", ["no", "first", "second", "both"])
    f = UF(ctx, "rule")

    class Key(ctx.ntm.MemoizationKey):
        def to_key(self, c):
            return (c.timestep, c.node_label)

    def once(name):
        s = ctx.ints(name, 3)
        es = edges_of(net)
        ring = net.rotation_system

        def args(k, t, a, pairs, ws):
            out = [k, t, a[k]]
            for x in sorted(pairs, key=lambda p: p[0]) if ring is None else pairs:
                out += list(x)
            for x in sorted(ws):
                out += [w["w"] for w in ws[x]]
            return out
        rule = lambda c: f(*args(c.node_label, c.timestep, c.activities, list(zip(c.neighbour_labels, c.neighbourhood_activities)), c.connection_states))
        traj = ctx.ntm.evolve(network=net, initial_conditions=list(s), activity_rule=rule, timesteps=steps, memoize=memoize,
                              memoization_key=Key() if memoize else None)
        a = dict(enumerate(s))
        for t in range(steps):
            if t:
                a = {k: f(*args(k, t, a, [(i, a[i]) for i in (sorted(i for i, j in es if j == k) if ring is None else ring[k])],
                                {i: es[(i, j)] for i, j in es if j == k})) for k in nodes}
            same_activities(ctx, "activities (%s)" % name, traj[t].activities, a)
    if rotate in ("first", "both"):
        net.rotation_system = {0: (2,), 1: (0,), 2: (1,)}
    once("before")
    edit = ctx.choice("edit", ["add", "remove", "replace", "update", "rotation only"])
    if edit == "add":
        net.add_edge(0, 2, w=ctx.int("v"))
    elif edit in ("remove", "replace"):
        net.remove_edge(0, 1)
    if edit == "replace":
        net.add_edge(2, 1, w=ctx.int("v"))
    if edit == "update":
        net.update_edge(1, 2, w=ctx.int("v"))
    if rotate in ("second", "both"):
        net.rotation_system = {0: (2, 1), 1: (1, 2, 0), 2: (0,)}
    once("after")
