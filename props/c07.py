"""C07: persistence and compression."""
from sx.harness import harness
from .common import UF, build, edges_of, long_evolution, odd_evolution, same_activities, same_network

BOUNDS = ("every combination of compression, persist_activities, persist_network and copy_network, 2 and 3 nodes, 3 to 4 "
          "timesteps, arbitrary activities and edge weights, an arbitrary activity rule, with a topology rule that rewires and "
          "reweights the network arbitrarily, with rules that add and remove nodes, and without either; integer, string and "
          "negative labels, nested activities (lists and dicts of numbers, strings, None); activities that are None, falsy, containers, strings or big numbers (solver-chosen shift of a table of 15); runs of 10 timesteps on 7 nodes under every combination of the options (thorough: 30 on 14).")

OUTSIDE = ("tuple activities come back as lists from a compressed state, which is msgpack's documented conversion; activities "
           "msgpack cannot represent; the rotation system of a compressed network (see the known finding of C12).")


def flags(ctx, topology):
    return {"compression": ctx.flag("compression"), "persist_activities": ctx.flag("persist_activities"),
            "persist_network": ctx.flag("persist_network"), "copy_network": ctx.flag("copy_network") if topology != "edit" else True}


@harness(quick=[{"topology": t} for t in ("none", "same", "edit", "new")],
         thorough=[{"topology": t, "steps": 5} for t in ("edit", "new")])
def settings(ctx, topology, steps=3):
    """states read back the same under all settings"""
    ntm = ctx.ntm
    nodes = ctx.choice("labels", [[0, 1], ["b", "a"], [5, -1]])
    a, b = nodes
    idx = {a: 0, b: 1}
    kw = flags(ctx, topology)
    w = ctx.ints("w", 3)
    net = build(ctx, nodes, [(a, b), (a, b), (b, b)], [{"weight": w[0]}, {"weight": w[1], "x": "y"}, {"weight": w[2]}])
    net.add_node(a, pos=[1, 2])
    start = edges_of(net)
    init = dict(zip(nodes, ctx.ints("s", 2)))
    f, h = UF(ctx, "f"), ctx.fn("h", 2)
    seen, tseen = [], []

    def rule(c):
        seen.append((c.timestep, c.node_label, dict(c.activities)))
        args = [c.timestep, idx[c.node_label], c.current_activity]
        for l in sorted(c.connection_states, key=lambda l: idx[l]):
            args += [e["weight"] for e in c.connection_states[l]]
        return f(*args)

    def topo(c):
        tseen.append((c.timestep, dict(c.activities), edges_of(c.network)))
        if topology == "same":
            return c.network
        g = c.network
        if topology == "new":
            g = build(ctx, nodes, [])
            for e, xs in edges_of(c.network).items():
                for x in xs:
                    g.add_edge(*e, **x)
        g.update_edge(a, b, weight=h(c.timestep, g.edge(a, b)[0]["weight"]))
        if c.timestep == 2:
            g.add_edge(b, a, weight=c.activities[a])
        return g
    traj = ntm.evolve(network=net, initial_conditions=init, activity_rule=rule, timesteps=steps,
                      topology_rule=None if topology == "none" else topo, **kw)
    s, e = init, {k: [dict(x) for x in xs] for k, xs in start.items()}
    ctx.check("number of states", len(traj) == steps)
    for t in range(steps):
        if t:
            prev, prev_e = s, e
            s = {}
            for n in nodes:
                args = [t, idx[n], prev[n]]
                for m in nodes:
                    args += [x["weight"] for x in e.get((m, n), [])]
                s[n] = f(*args)
            mine = [c for c in seen if c[0] == t]
            ctx.check("rule calls", sorted(c[1] for c in mine) == sorted(nodes))
            for c in mine:
                same_activities(ctx, "rules see the same values", c[2], prev)
            if topology in ("edit", "new"):
                e = {k: [dict(x) for x in xs] for k, xs in e.items()}
                x = h(t, e[(a, b)][0]["weight"])
                for d in e[(a, b)]:
                    d["weight"] = x
                if t == 2:
                    e[(b, a)] = e.get((b, a), []) + [{"weight": s[a]}]
            if topology != "none":
                same_activities(ctx, "the topology rule sees the same activities", tseen[t - 1][1], s)
                ctx.eq("the topology rule sees the same network", [tseen[t - 1][2][k] for k in sorted(prev_e, key=str)],
                       [prev_e[k] for k in sorted(prev_e, key=str)])
        if t == 0 or kw["persist_activities"]:
            same_activities(ctx, "activities", traj[t].activities, s)
            same_activities(ctx, "activities read again", traj[t].activities, s)
        else:
            ctx.check("activities are not persisted", traj[t].activities is None)
        if t == 0 or kw["persist_network"]:
            same_network(ctx, "network", traj[t].network, nodes, e)
            if topology != "new" or t == 0:
                ctx.eq("node attributes", traj[t].network[a]["pos"], [1, 2])
            for n in nodes:
                ctx.check("degrees", traj[t].network.in_degree(n) == sum(len(x) for k, x in e.items() if k[1] == n) and
                          traj[t].network.out_degree(n) == sum(len(x) for k, x in e.items() if k[0] == n))
        else:
            ctx.check("the network is not persisted", traj[t].network is None)


@harness(quick=[{}])
def added_and_removed(ctx):
    """rules that add and remove nodes under all settings"""
    ntm = ctx.ntm
    nodes = [0, 1, 2]
    kw = flags(ctx, "none")
    topology = ctx.flag("topology")
    net = build(ctx, nodes, [(0, 1), (1, 2), (2, 0)], [{"w": ctx.int("w%d" % k)} for k in range(3)])
    es = edges_of(net)
    init = dict(zip(nodes, ctx.ints("s", 3)))
    f = ctx.fn("f", 3)
    x = ctx.int("x")

    def rule(c):
        if c.timestep == 1 and c.node_label == 1:
            c.remove_node(1)
            c.add_node(x, {2: [{"w": 7}][0]}, 9)
        return f(c.timestep, c.node_label, c.current_activity)
    traj = ntm.evolve(network=net, initial_conditions=init, activity_rule=rule, timesteps=3,
                      topology_rule=(lambda c: c.network) if topology else None, **kw)
    s = [init]
    s.append({0: f(1, 0, init[0]), 2: f(1, 2, init[2]), 9: x})
    s.append({k: f(2, k, s[1][k]) for k in s[1]})
    e = [es, {(2, 0): es[(2, 0)], (9, 2): [{"w": 7}]}]
    e.append(e[1])
    for t in range(3):
        if t == 0 or kw["persist_activities"]:
            same_activities(ctx, "activities", traj[t].activities, s[t])
        else:
            ctx.check("activities are not persisted", traj[t].activities is None)
        if t == 0 or kw["persist_network"]:
            same_network(ctx, "network", traj[t].network, [nodes, [0, 2, 9], [0, 2, 9]][t], e[t])
        else:
            ctx.check("the network is not persisted", traj[t].network is None)


@harness(quick=[{}])
def nested_activities(ctx):
    """lists, dicts, strings, None and booleans come back from a compressed state"""
    ntm = ctx.ntm
    x, y = ctx.int("x"), ctx.int("y")
    value = lambda t: [[x, [y, t]], {"a": x, "b": [y]}, "text", None, True, -1.5, [], {}, 0, "", 0.1, 1 / 3, -1e-300,
                       1e308, 2 ** 64 - 1, -2 ** 63, 10 ** 12 + 1, False, {1: {2: [0.7]}}, {-1: "a"}, "\u00e9\u2713 ", b"\x00\xff",
                       float("inf"), [[[[]]]], {"": None}, "x" * 300, list(range(300))]
    n = len(value(0))
    net = build(ctx, list(range(n)), [])
    traj = ntm.evolve(network=net, initial_conditions=value(0), activity_rule=lambda c: value(c.timestep)[c.node_label],
                      timesteps=3, compression=ctx.flag("compression"))
    for t in range(3):
        got = traj[t].activities
        ctx.check("nodes", sorted(got) == list(range(n)))
        ctx.eq("activities", [got[k] for k in range(n)], value(t))


@harness(quick=[{}])
def state_class(ctx):
    """a State compressed or not returns what it was given, also when set later"""
    ntm = ctx.ntm
    compression = ctx.flag("compression")
    net = build(ctx, [0, 1], [(0, 1)], [{"w": ctx.int("w")}])
    acts = {0: ctx.int("a"), 1: ctx.int("b")}
    s = ntm.State(compression=compression)
    ctx.check("nothing given", s.activities is None and s.network is None)
    if ctx.flag("later"):
        s.activities = acts
        s.network = net
    else:
        s = ntm.State(activities=acts, network=net, compression=compression)
    same_activities(ctx, "activities", s.activities, acts)
    same_network(ctx, "network", s.network, [0, 1], edges_of(net))


@harness(quick=[{"compression": c} for c in (False, True)])
def odd_values(ctx, compression):
    """activities that are None, falsy, containers, strings"""
    odd_evolution(ctx, packed=True, past=ctx.choice("past", [0, 2]), topology=ctx.flag("topology"), compression=compression,
                  persist_activities=ctx.flag("persist_activities"), persist_network=ctx.flag("persist_network"))


@harness(quick=[{"n": 7, "steps": 10}], thorough=[{"n": 14, "steps": 30}])
def long_runs(ctx, n, steps):
    """many timesteps of a larger network under every combination of the options"""
    long_evolution(ctx, n=n, steps=steps, topology=ctx.flag("topology"), compression=ctx.flag("compression"), copy_network=ctx.flag("copy_network"),
                   persist_activities=ctx.flag("persist_activities"), persist_network=ctx.flag("persist_network"), past=ctx.choice("past", [0, 2]))
