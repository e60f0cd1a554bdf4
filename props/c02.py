"""C02: the three update orders follow their equations."""
from sx.harness import harness
from .common import UF, build, edges_of, long_evolution, odd_evolution, same_activities, same_network

BOUNDS = ("2 and 3 nodes, 3 to 5 potential edges whose presence and weight after every step are arbitrary functions of the "
          "timestep, the activities and the previous weights (each combination of presences is a path), an arbitrary "
          "function of timestep, node, activity and incoming weights as activity rule, the three update orders, topology rules that add and remove any of two nodes, "
          "2 to 4 timesteps, the topology rule editing the network it is given, building a new one or returning it as is, "
          "copy_network on and off (then with a rule that does not edit), runs with only a topology rule; activities that are None, falsy, containers, strings or big numbers (solver-chosen shift of a table of 15); runs of 12 timesteps on 7 nodes whose edges and weights change in every one (thorough: 30 on 12).")

OUTSIDE = "larger networks and more timesteps; topology rules that keep references to networks of earlier steps and edit them."

POT = {2: [(0, 1), (1, 0), (1, 1)], 3: [(0, 1), (1, 2), (2, 0), (2, 1)]}


def act_args(k, t, acts, edges):
    """the arguments of the arbitrary activity rule for node k"""
    args = [k, t, acts[k]]
    for (i, j) in sorted(edges):
        if j == k:
            args += [i, acts[i]] + [a["weight"] for a in edges[(i, j)]]
    return args


@harness(quick=[{"order": o, "n": n, "steps": s, "how": h, "_weight": s}
                for o in ("ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS")
                for n, s, h in ((2, 3, "edit"), (2, 3, "new"), (2, 3, "same"), (3, 2, "edit"))],
         thorough=[{"order": o, "n": n, "steps": s, "how": h, "_weight": 9}
                   for o in ("ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS")
                   for n, s, h in ((2, 4, "edit"), (3, 3, "edit"), (3, 3, "new"))])
def equations(ctx, order, n, steps, how):
    """arbitrary activity and topology rules under every update order"""
    ntm = ctx.ntm
    nodes, pot = list(range(n)), POT[n]
    start = {e: [{"weight": ctx.int("w%d" % k)}] for k, e in enumerate(pot) if k % 2 == 0}
    net = build(ctx, nodes, list(start), [a[0] for a in start.values()])
    init = {k: s for k, s in zip(nodes, ctx.ints("s", n))}
    f = UF(ctx, "act")
    present = [ctx.fn("present%d" % k, 2, 0, 1) for k in range(len(pot))]
    weight = [UF(ctx, "weight%d" % k) for k in range(len(pot))]
    copying = True if how == "edit" else ctx.flag("copy_network")
    calls, tcalls = [], []

    def rule(c):
        calls.append((c.timestep, c.node_label, dict(c.activities)))
        args = [c.node_label, c.timestep, c.current_activity]
        for l in sorted(c.neighbour_labels):
            args += [l, c.activity_of(l)] + [a["weight"] for a in c.connection_states[l]]
        return f(*args)

    def new_edges(t, edges, acts):
        out = {}
        s = acts[0]
        for k, e in enumerate(pot):
            w = [a["weight"] for a in edges.get(e, [])]
            if present[k](t, s) == 1:
                out[e] = [{"weight": weight[k](t, *([acts[i] for i in nodes] + w))}]
        return out

    def topology(c):
        tcalls.append((c.timestep, sorted(c.network.nodes), edges_of(c.network), dict(c.activities)))
        if how == "same":
            return c.network
        new = new_edges(c.timestep, edges_of(c.network), c.activities)
        if how == "new":
            return build(ctx, nodes, list(new), [a[0] for a in new.values()])
        g = c.network
        for e in pot:
            if g.has_edge(*e) and e not in new:
                g.remove_edge(*e)
            elif g.has_edge(*e):
                g.update_edge(*e, **new[e][0])
            elif e in new:
                g.add_edge(*e, **new[e][0])
        return g

    traj = ntm.evolve(network=net, initial_conditions=init, activity_rule=rule, topology_rule=topology, timesteps=steps,
                      update_order=ntm.UpdateOrder[order], copy_network=copying)

    # the equations
    A, S, want, wcalls, wtcalls = start, init, [(init, start)], [], []
    F = lambda t, a, s: (wtcalls.append((t, a, s)), a if how == "same" else new_edges(t, a, s))[1]

    def G(t, a, s):
        wcalls.extend((t, k, s) for k in nodes)
        return {k: f(*act_args(k, t, s, a)) for k in nodes}
    for t in range(1, steps):
        if order == "ACTIVITIES_FIRST":
            S1 = G(t, A, S)
            A1 = F(t, A, S1)
        elif order == "TOPOLOGY_FIRST":
            A1 = F(t, A, S)
            S1 = G(t, A1, S)
        else:
            A1 = F(t, A, S)
            S1 = G(t, A, S)
        A, S = A1, S1
        want.append((S, A))
    ctx.check("number of states", len(traj) == steps)
    for t in range(steps):
        same_activities(ctx, "activities", traj[t].activities, want[t][0])
        same_network(ctx, "network", traj[t].network, nodes, want[t][1])
    ctx.check("the topology rule is called once per timestep", len(tcalls) == steps - 1)
    for (t, ns, es, s), (wt, we, ws) in zip(tcalls, wtcalls):
        ctx.check("topology context timestep", t == wt)
        same_activities(ctx, "topology context activities", s, ws)
        ctx.check("topology context network", ns == nodes and set(es) == set(we))
        ctx.eq("topology context weights", [es[e] for e in sorted(we)], [we[e] for e in sorted(we)])
    ctx.check("the activity rule is called once per node and timestep",
              sorted((t, k) for t, k, _ in calls) == sorted((t, k) for t, k, _ in wcalls))
    for t, k, s in calls:
        same_activities(ctx, "context activities", s, want[t - 1][0])
    if copying or how != "edit":
        same_network(ctx, "caller's network", net, nodes, start)


@harness(quick=[{"order": o, "compression": c} for o in ("ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS")
                for c in (False, True)])
def topology_only(ctx, order, compression):
    """no activity rule: the networks are F applied again and again"""
    ntm = ctx.ntm
    nodes = [0, 1, 2]
    net = build(ctx, nodes, [(0, 1), (1, 2)], [{"weight": ctx.int("w0")}, {"weight": ctx.int("w1")}])
    f = ctx.fn("f", 3)
    start = edges_of(net)
    seen = []

    def topology(c):
        seen.append(c.timestep)
        g = c.network
        for i, j in [(0, 1), (1, 2)]:
            g.update_edge(i, j, weight=f(c.timestep, i, g.edge(i, j)[0]["weight"]))
        return g
    traj = ntm.evolve(network=net, topology_rule=topology, timesteps=4, update_order=ntm.UpdateOrder[order],
                      compression=compression)
    ctx.check("number of states", len(traj) == 4)
    ctx.check("the topology rule is called once per timestep", seen == [1, 2, 3])
    e = start
    for t in range(4):
        if t:
            e = {k: [{"weight": f(t, k[0], a[0]["weight"])}] for k, a in e.items()}
        same_network(ctx, "network", traj[t].network, nodes, e)
        ctx.check("no activities", not traj[t].activities)
    same_network(ctx, "caller's network", net, nodes, start)


@harness(quick=[{"order": o} for o in ("ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS")])
def no_topology_rule(ctx, order):
    """without a topology rule the network of every state is the given one, whatever the order"""
    ntm = ctx.ntm
    nodes = [0, 1, 2]
    es = [(0, 1), (1, 2), (2, 2), (2, 0)]
    net = build(ctx, nodes, es, [{"weight": ctx.int("w%d" % k)} for k in range(len(es))])
    init = dict(zip(nodes, ctx.ints("s", 3)))
    start = edges_of(net)
    f = UF(ctx, "act")

    def rule(c):
        args = [c.node_label, c.timestep, c.current_activity]
        for l in sorted(c.neighbour_labels):
            args += [l, c.activity_of(l)] + [a["weight"] for a in c.connection_states[l]]
        return f(*args)
    traj = ntm.evolve(network=net, initial_conditions=init, activity_rule=rule, timesteps=4,
                      update_order=ntm.UpdateOrder[order])
    s = init
    ctx.check("number of states", len(traj) == 4)
    for t in range(4):
        if t:
            s = {k: f(*act_args(k, t, s, start)) for k in nodes}
        same_activities(ctx, "activities", traj[t].activities, s)
        same_network(ctx, "network", traj[t].network, nodes, start)


@harness(quick=[{"order": o, "steps": 4} for o in ("ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS")],
         thorough=[{"order": o, "steps": 6} for o in ("ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS")])
def changing_nodes(ctx, order, steps):
    """topology rules that add and remove nodes, also all of them; with ACTIVITIES_FIRST the activity rule runs on those left"""
    ntm = ctx.ntm
    shrinking = order == "ACTIVITIES_FIRST" and ctx.flag("with_activities")
    present = [ctx.fn("present%d" % k, 1, 0, 1) for k in range(2)]
    f = ctx.fn("f", 3)
    first = [k for k in (0, 1) if shrinking or ctx.flag("first")]
    init = {k: ctx.int("s%d" % k) for k in first} if shrinking else None
    net = build(ctx, first, [(0, 0)] if 0 in first else [])

    def nodes_of(t, old):
        return [k for k in (0, 1) if present[k](t) == 1 and not (shrinking and k not in old)]

    def topology(c):
        old, new = list(c.network.nodes), nodes_of(c.timestep, list(c.network.nodes))
        g = c.network
        for k in old:
            if k not in new:
                g.remove_node(k)
        for k in new:
            if k not in old:
                g.add_node(k)
                if k == 0:
                    g.add_edge(0, 0)
        return g
    kw = {"initial_conditions": dict(init), "activity_rule": lambda c: f(c.node_label, c.timestep, c.current_activity)} if shrinking else {}
    traj = ntm.evolve(network=net, topology_rule=topology, timesteps=steps, update_order=ntm.UpdateOrder[order], **kw)
    ctx.check("number of states", len(traj) == steps)
    nodes, s = first, init
    for t in range(steps):
        if t:
            if shrinking:
                s = {k: f(k, t, s[k]) for k in nodes}
            nodes = nodes_of(t, nodes)
        same_network(ctx, "network", traj[t].network, nodes, {(0, 0): [{}]} if 0 in nodes else {})
        if shrinking:
            same_activities(ctx, "activities", traj[t].activities, s)


@harness(quick=[{"order": o} for o in ("ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS")])
def odd_values(ctx, order):
    """activities that are None, falsy, containers, strings"""
    odd_evolution(ctx, order=order, topology=True, perturb=ctx.flag("perturb"))


@harness(quick=[{"order": o, "n": 7, "steps": 12} for o in ("ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS")], thorough=[{"order": o, "n": 12, "steps": 30} for o in ("ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS")])
def long_runs(ctx, order, n, steps):
    """many timesteps of a larger network whose edges and weights change in every one"""
    long_evolution(ctx, n=n, steps=steps, order=order, topology=True, copy_network=ctx.flag("copy_network"), compression=ctx.flag("compression"))
