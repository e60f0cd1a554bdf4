"""C09: inputs and recorded states are not modified."""
import copy
from sx.harness import harness
from .common import UF, build, edges_of, odd_evolution, same_activities, same_network

BOUNDS = ("2 and 3 nodes, 4 timesteps, lists, dicts and nested values as initial conditions, past conditions and inputs (arbitrary "
          "integers), arbitrary activity rule, topology rules that edit the copy they are given (edges, attributes, nodes), rules that "
          "add and remove nodes, perturbations, asynchronous and reversible rules, memoization, compression; snapshots of the "
          "inputs and of every state taken as soon as it exists are compared at the end; activities, inputs that are None, falsy, containers, strings or big numbers (solver-chosen shift of a table of 15); "
          "9 timesteps of 10 nodes (thorough: 30 of 20).")

OUTSIDE = "rules that modify activity values they are given in place; copy_network=False with an editing topology rule."


def snapshot_net(net):
    return (list(net.nodes), edges_of(net), {n: (net.in_degree(n), net.out_degree(n)) for n in net.nodes},
            {n: {k: x for k, x in net[n].items() if k not in ("in", "out", "incoming", "outgoing")} for n in net.nodes})


def same_snapshot(ctx, label, a, b):
    ctx.check(label + ": nodes", a[0] == b[0] and a[2] == b[2] and set(a[1]) == set(b[1]))
    ctx.eq(label + ": edges", [a[1][k] for k in a[1]], [b[1][k] for k in a[1]])
    ctx.eq(label + ": node attributes", [a[3][k] for k in a[0]], [b[3][k] for k in a[0]])


@harness(quick=[{"topology": t, "order": o} for t in (None, "edges", "nodes") for o in ("ACTIVITIES_FIRST", "TOPOLOGY_FIRST",
                                                                                      "SYNCHRONOUS")])
def inputs_and_states(ctx, topology, order):
    """initial conditions, past conditions, inputs, network and recorded states stay as they were"""
    ntm = ctx.ntm
    nodes = [0, 1, 2]
    ws = ctx.ints("w", 4)
    net = build(ctx, nodes, [(0, 1), (1, 2), (2, 0), (0, 1)], [{"w": w} for w in ws])
    net.add_node(1, kind="x", pos=[1, 2])
    as_list = ctx.flag("list")
    driven = ctx.flag("driven")
    past_given = ctx.flag("past")
    memoize = ctx.flag("memoize")
    s = ctx.ints("s", 3)
    ics = list(s) if as_list else dict(zip(nodes, s))
    past = [ctx.ints("p%d" % i, 3) if i else dict(zip(nodes, ctx.ints("q", 3))) for i in range(2)]
    inputs = [[ctx.int("i%d%d" % (t, k)) for k in nodes] if t else ctx.int("j") for t in range(3)]
    f, g, h = UF(ctx, "f"), ctx.fn("g", 2), ctx.fn("h", 2)
    seen_acts, seen_nets = {}, {}

    class Key(ntm.MemoizationKey):
        def to_key(self, c):
            return (c.timestep, c.node_label)

    def rule(c):
        seen_acts.setdefault(c.timestep - 1, (c.activities, dict(c.activities)))
        args = [c.node_label, c.timestep, c.current_activity]
        args += [c.past_activity_of(n) for n in sorted(c.past_activities[-1])] if past_given else []
        args += [c.input] if driven else []
        return f(*args)

    def topo(c):
        n = c.network
        if topology == "edges":
            for e in list(edges_of(n)):
                n.update_edge(*e, w=h(c.timestep, n.edge(*e)[0]["w"]))
            if c.timestep == 1:
                n.add_edge(2, 1, w=0)
            elif c.timestep == 2:
                n.remove_edge(0, 1)
        else:
            n.add_edge(0, 1, w=c.activities[0])
            if c.timestep == 2:
                n.add_node(1, kind="changed")
                n.remove_node(1)
                n.add_node(1)
        seen_nets[c.timestep] = snapshot_net(n)
        return n
    before = (snapshot_net(net), copy.copy(ics), [copy.copy(p) for p in past], [copy.copy(i) for i in inputs])
    kw = {"input": inputs} if driven else {"timesteps": 4}
    traj = ntm.evolve(network=net, initial_conditions=ics, activity_rule=rule, past_conditions=past if past_given else None,
                      topology_rule=topo if topology else None, update_order=ntm.UpdateOrder[order],
                      perturbation=lambda c: g(c.node_label, c.node_activity), memoize=memoize,
                      memoization_key=Key() if memoize else None, **kw)
    same_snapshot(ctx, "the given network", before[0], snapshot_net(net))
    ctx.eq("the initial conditions", ics, before[1])
    ctx.eq("the past conditions", past, before[2])
    ctx.eq("the input", inputs, before[3])
    ctx.check("number of states", len(traj) == 4)
    same_activities(ctx, "the first state has the initial conditions", traj[0].activities, dict(zip(nodes, s)))
    same_snapshot(ctx, "the first state has the network", snapshot_net(traj[0].network), before[0])
    for t in range(3):
        same_activities(ctx, "activities of a state as the next step saw them", traj[t].activities, seen_acts[t][1])
        same_activities(ctx, "activities given to the rule are not changed later", seen_acts[t][0], seen_acts[t][1])
    if topology:
        for t in range(1, 4):
            same_snapshot(ctx, "network of a state as recorded", snapshot_net(traj[t].network), seen_nets[t])


@harness(quick=[{"topology": False}, {"topology": True}])
def added_and_removed(ctx, topology):
    """adding and removing nodes leaves earlier states and the given network alone"""
    ntm = ctx.ntm
    nodes = [0, 1, 2]
    net = build(ctx, nodes, [(0, 1), (1, 2), (2, 0), (2, 2)], [{"w": ctx.int("w%d" % k)} for k in range(4)])
    before = snapshot_net(net)
    s = ctx.ints("s", 3)
    ics = dict(zip(nodes, s))
    removed, at = ctx.choice("removed", nodes + [None]), ctx.choice("at", [1, 2])
    f = ctx.fn("f", 3)
    links = {n: {"w": ctx.int("lw%d" % n)} for n in nodes if n != removed}
    given = {k: dict(x) for k, x in links.items()}
    last = ctx.flag("last")   # a node is removed in a later step
    seen = {}

    def rule(c):
        seen.setdefault(c.timestep - 1, dict(c.activities))
        if c.timestep == at and c.node_label == 1:
            if removed is not None:
                c.remove_node(removed)
            c.add_node(ctx.int("x"), links, 7)
        if last and c.timestep == 3 and c.node_label == 7:
            c.remove_node(7)
        return f(c.timestep, c.node_label, c.current_activity)

    def topo(c):
        if topology:
            c.network.add_edge(1 if removed != 1 else 0, 2 if removed != 2 else 0, w=c.timestep)
        return c.network
    traj = ntm.evolve(network=net, initial_conditions=ics, activity_rule=rule, timesteps=4,
                      topology_rule=topo if topology else None)
    same_snapshot(ctx, "the given network", before, snapshot_net(net))
    ctx.eq("the initial conditions", ics, dict(zip(nodes, s)))
    ctx.eq("the links given for the added node", links, given)
    for t in range(3):
        same_activities(ctx, "activities as the next step saw them", traj[t].activities, seen[t])
    for t in range(at):
        ctx.check("networks before the change", sorted(traj[t].network.nodes) == nodes)
        if t == 0 or not topology:
            same_snapshot(ctx, "networks before the change", snapshot_net(traj[t].network), before)
    for t in range(at, 3 if last else 4):
        ctx.check("networks after the change", set(traj[t].network.nodes) == ({0, 1, 2, 7} - {removed}))
        if t == at or not topology:
            ctx.check("networks after the change keep the added links", all(traj[t].network.has_edge(7, k) for k in links))


@harness(quick=[{}])
def wrapped_rules(ctx):
    """asynchronous and reversible rules do not modify what they are given either"""
    ntm = ctx.ntm
    nodes = [0, 1]
    net = build(ctx, nodes, [(0, 1), (1, 0)])
    before = snapshot_net(net)
    f = ctx.fn("f", 3, 0, 1)
    kind = ctx.choice("kind", ["async", "reversible"])
    base = lambda c: f(c.node_label, c.current_activity, c.neighbourhood_activities[0])
    s = ctx.ints("s", 2, 0, 1)
    ics, order, past = list(s), [1, 0], [[ctx.int("p0", 0, 1), ctx.int("p1", 0, 1)]]
    was = [list(p) for p in past]
    if kind == "async":
        ntm.evolve(network=net, initial_conditions=ics, timesteps=5,
                   activity_rule=ntm.AsynchronousRule(activity_rule=base, update_order=order))
    else:
        ntm.evolve(network=net, initial_conditions=ics, timesteps=4, past_conditions=past,
                   activity_rule=ntm.ReversibleRule(base))
    ctx.eq("the initial conditions", ics, list(s))
    ctx.check("the update order", order == [1, 0])
    ctx.eq("the past conditions", past, was)
    same_snapshot(ctx, "the given network", before, snapshot_net(net))


@harness(quick=[{"order": o} for o in ("ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS")])
def odd_values(ctx, order):
    """states whose activities are None, falsy, containers, strings stay as they were recorded"""
    odd_evolution(ctx, order=order, topology=True, past=2, inputs="list", compression=False)


@harness(quick=[{"n": 10, "steps": 9}], thorough=[{"n": 20, "steps": 30}])
def long_runs(ctx, n, steps):
    """many timesteps of a larger network: what was recorded and given stays as it was"""
    from .common import long_evolution
    long_evolution(ctx, n=n, steps=steps, order=ctx.choice("order", ("ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS")), topology=True,
                   inputs=ctx.choice("inputs", [None, "list", "function"]), past=ctx.choice("past", [0, 3]), perturb=True)
