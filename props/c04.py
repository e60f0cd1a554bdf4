"""C04: perturbations."""
from sx.harness import harness
from .common import UF, build, graph_flags, in_neighbours, long_evolution, odd_evolution, same_activities

BOUNDS = ("every directed graph on 2 nodes and rings of 3 with an arbitrary chord, 3 and 4 timesteps, an arbitrary function of "
          "node, time, activity and input as perturbation, an arbitrary activity rule, with and without input, memoization and "
          "a topology rule; perturbation of a rule that adds or removes nodes; activities, inputs that are None, falsy, containers, strings or big numbers (solver-chosen shift of a table of 15); runs of 11 timesteps on 11 nodes with inputs and past activities (thorough: 30 on 20).")

OUTSIDE = "more nodes and timesteps."


@harness(quick=[{"n": 2, "steps": 4, "memoize": m, "driven": d} for m in (False, True) for d in (False, True)] +
         [{"n": 3, "steps": 3, "memoize": m, "driven": True} for m in (False, True)],
         thorough=[{"n": 2, "steps": 5, "memoize": True, "driven": True}, {"n": 3, "steps": 4, "memoize": False, "driven": True}])
def perturbed(ctx, n, steps, memoize, driven):
    """the recorded activity is the perturbation of the rule's result"""
    ntm = ctx.ntm
    nodes = list(range(n))
    if n == 2:
        edges = graph_flags(ctx, nodes)
    else:
        edges = [(i, (i + 1) % n) for i in nodes] + [e for e in ((0, 0), (0, 2)) if ctx.flag("c%d%d" % e)]
    ins = in_neighbours(nodes, edges)
    net = build(ctx, nodes, edges)
    init = dict(zip(nodes, ctx.ints("s", n)))
    f, p = UF(ctx, "rule"), ctx.fn("perturb", 4)
    none = 17
    inputs = None
    if driven:
        inputs = [[ctx.int("i%d_%d" % (t, k)) for k in nodes] for t in range(steps - 1)]
    calls, order = [], []

    class Key(ntm.MemoizationKey):
        def to_key(self, c):
            return (c.timestep, c.node_label)

    def rule(c):
        order.append(("rule", c.timestep, c.node_label))
        args = [c.node_label, c.timestep, c.current_activity]
        for l in sorted(c.neighbour_labels):
            args += [l, c.activity_of(l)]
        return f(*args)

    def perturbation(c):
        order.append(("perturbation", c.timestep, c.node_label))
        calls.append((c.timestep, c.node_label, c.node_activity, c.input))
        return p(c.timestep, c.node_label, c.node_activity, none if c.input is None else c.input)
    kw = {"input": inputs} if driven else {"timesteps": steps}
    if memoize:
        kw.update(memoize=True, memoization_key=Key())
    traj = ntm.evolve(network=net, initial_conditions=init, activity_rule=rule, perturbation=perturbation, **kw)
    ctx.check("number of states", len(traj) == steps)
    s, want = init, []
    for t in range(steps):
        if t:
            new = {}
            for k in nodes:
                args = [k, t, s[k]]
                for l in sorted(ins[k]):
                    args += [l, s[l]]
                a = f(*args)
                i = inputs[t - 1][k] if driven else None
                want.append((t, k, a, i))
                new[k] = p(t, k, a, none if i is None else i)
            s = new
        same_activities(ctx, "activities", traj[t].activities, s)
    ctx.check("one call per node and timestep", sorted(c[:2] for c in calls) == sorted(c[:2] for c in want))
    by = {c[:2]: c for c in want}
    ctx.eq("perturbation context", [c[2:] for c in calls], [by[c[:2]][2:] for c in calls])
    ctx.check("after the activity rule", all(order.index(("rule", t, k)) < order.index(("perturbation", t, k))
                                            for t in range(1, steps) for k in nodes))


@harness(quick=[{"order": o} for o in ("ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS")])
def with_topology_rule(ctx, order):
    """the topology rule and the input function see the perturbed activities"""
    ntm = ctx.ntm
    nodes = [0, 1]
    net = build(ctx, nodes, [(0, 1), (1, 0)])
    init = dict(zip(nodes, ctx.ints("s", 2)))
    f, p = ctx.fn("f", 4), ctx.fn("p", 3)
    seen, asked = [], []

    def topo(c):
        seen.append(dict(c.activities))
        return c.network

    def inp(t, a, n):
        asked.append(dict(a))
        return 0 if t < 4 else None
    traj = ntm.evolve(network=net, initial_conditions=init, topology_rule=topo, input=inp, update_order=ntm.UpdateOrder[order],
                      activity_rule=lambda c: f(c.node_label, c.timestep, c.current_activity, c.neighbourhood_activities[0]),
                      perturbation=lambda c: p(c.timestep, c.node_label, c.node_activity))
    s = init
    for t in range(4):
        if t:
            before, s = s, {k: p(t, k, f(k, t, s[k], s[1 - k])) for k in nodes}
            same_activities(ctx, "the topology rule sees the perturbed activities", seen[t - 1],
                            s if order == "ACTIVITIES_FIRST" else before)
        same_activities(ctx, "activities", traj[t].activities, s)
        same_activities(ctx, "the input function sees the perturbed activities", asked[t], s)


@harness(quick=[{}])
def added_and_removed(ctx):
    """a removed node stays removed, an added node starts with the given state"""
    ntm = ctx.ntm
    nodes = [0, 1, 2]
    net = build(ctx, nodes, [(0, 1), (1, 2), (2, 0), (1, 1)])
    init = dict(zip(nodes, ctx.ints("s", 3)))
    f, p = ctx.fn("f", 3), ctx.fn("p", 3)
    x = ctx.int("x")
    remover, removed = ctx.choice("remover", nodes), ctx.choice("removed", nodes)
    add = ctx.flag("add")
    calls = []

    def rule(c):
        if c.timestep == 1 and c.node_label == remover:
            c.remove_node(removed)
            if add:
                c.add_node(x, {}, 9)
        return f(c.node_label, c.timestep, c.current_activity)

    def perturbation(c):
        calls.append((c.timestep, c.node_label))
        return p(c.timestep, c.node_label, c.node_activity)
    traj = ntm.evolve(network=net, initial_conditions=init, activity_rule=rule, perturbation=perturbation, timesteps=3)
    left = [k for k in nodes if k != removed]
    s = {k: p(1, k, f(k, 1, init[k])) for k in left}
    if add:
        s[9] = x
    same_activities(ctx, "surviving nodes are perturbed", traj[1].activities, s)
    same_activities(ctx, "surviving nodes are perturbed", traj[2].activities, {k: p(2, k, f(k, 2, s[k])) for k in s})
    ctx.check("calls in the next step", sorted(k for t, k in calls if t == 2) == sorted(s))
    ctx.check("calls", all(calls.count((1, k)) == 1 for k in left))


@harness(quick=[{"memoize": m} for m in (False, True)])
def odd_values(ctx, memoize):
    """rules and perturbations that return None, falsy values, containers, strings"""
    odd_evolution(ctx, perturb=True, memoize=memoize, inputs=ctx.choice("inputs", [None, "list", "function"]))


@harness(quick=[{"n": 11, "steps": 11}], thorough=[{"n": 20, "steps": 30}])
def long_runs(ctx, n, steps):
    """many timesteps and nodes, with inputs and past activities"""
    long_evolution(ctx, n=n, steps=steps, perturb=True, inputs=ctx.choice("inputs", [None, "list", "function"]), past=ctx.choice("past", [0, 2]),
                   topology=ctx.flag("topology"), memoize=ctx.flag("memoize"))
