"""C03: run length and inputs."""
from sx.harness import harness
from .common import build, edges_of, long_evolution, odd_evolution, same_activities

BOUNDS = ("timesteps symbolic in 0..6; input lists of length 0..3 and strings of 3 letters of three (thorough: 6), each item a scalar, a list or a tuple, all values arbitrary "
          "integers; input functions that end the evolution at a symbolic time up to 5 and are arbitrary functions of the "
          "timestep and the activities; 2 nodes, an arbitrary function of node, time, activity and input as rule; the three "
          "update orders; activities, inputs that are None, falsy, containers, strings or big numbers (solver-chosen shift of a table of 15); runs of 14 timesteps on 11 nodes (thorough: 30 on 20); 300 inputs or timesteps (thorough: 1100) for one node.")

OUTSIDE = "longer runs; inputs that are neither sequences nor scalars (numpy arrays, dicts)."


def ring(ctx):
    net = build(ctx, [0, 1], [(0, 1), (1, 0)])
    return net, [ctx.int("s0"), ctx.int("s1")]


def orders(ctx):
    return ctx.choice("order", list(ctx.ntm.UpdateOrder))


@harness(quick=[{"top": 6, "topology": False}, {"top": 4, "topology": True}], thorough=[{"top": 14, "topology": True}])
def timesteps(ctx, top, topology):
    """T timesteps give T states; rules see 1..T-1 and no input (with T=0 only the initial state)"""
    ntm = ctx.ntm
    net, init = ring(ctx)
    T = ctx.int("T", 0, top)
    f = ctx.fn("f", 3)
    seen, tseen = [], []

    def rule(c):
        seen.append((c.timestep, c.node_label, c.input))
        return f(c.node_label, c.timestep, c.current_activity)

    def topo(c):
        tseen.append(c.timestep)
        return c.network
    traj = ntm.evolve(network=net, initial_conditions=init, activity_rule=rule, timesteps=T,
                      topology_rule=topo if topology else None, update_order=orders(ctx))
    ctx.check("number of states", len(traj) == (T if T > 1 else 1))
    n = len(traj)
    ctx.check("the rule sees the timesteps 1..T-1", sorted((t, k) for t, k, _ in seen) ==
              [(t, k) for t in range(1, n) for k in (0, 1)])
    ctx.check("no input", all(i is None for _, _, i in seen))
    if topology:
        ctx.check("the topology rule sees the timesteps 1..T-1", tseen == list(range(1, n)))
    s = {0: init[0], 1: init[1]}
    for t in range(n):
        if t:
            s = {k: f(k, t, s[k]) for k in s}
        same_activities(ctx, "activities", traj[t].activities, s)


@harness(quick=[{"L": 0}, {"L": 1}, {"L": 2}, {"L": 3, "_weight": 3}], thorough=[{"L": 4, "_weight": 5}])
def input_list(ctx, L):
    """scalar and per-node items; the list wins over timesteps"""
    ntm = ctx.ntm
    net, init = ring(ctx)
    kinds = [ctx.choice("kind%d" % t, ["scalar", "list", "tuple"]) for t in range(L)]
    vals = [(ctx.int("a%d" % t), ctx.int("b%d" % t)) for t in range(L)]
    items = [a if k == "scalar" else [a, b] if k == "list" else (a, b) for k, (a, b) in zip(kinds, vals)]
    inp = tuple(items) if ctx.flag("tuple") else list(items)
    T = ctx.choice("timesteps", [None, 1, 7])
    f = ctx.fn("f", 4)
    seen = []

    def rule(c):
        seen.append((c.timestep, c.node_label, c.input))
        return f(c.node_label, c.timestep, c.current_activity, c.input)
    traj = ntm.evolve(network=net, initial_conditions=init, activity_rule=rule, input=inp, timesteps=T,
                      update_order=orders(ctx) if L < 3 else ntm.UpdateOrder.ACTIVITIES_FIRST)
    ctx.check("L inputs give L+1 states", len(traj) == L + 1)
    ctx.check("one call per node and timestep", sorted((t, k) for t, k, _ in seen) ==
              [(t, k) for t in range(1, L + 1) for k in (0, 1)])
    want = lambda t, k: vals[t - 1][0] if kinds[t - 1] == "scalar" else vals[t - 1][k]
    ctx.eq("the input of a node is its item", [i for _, _, i in seen], [want(t, k) for t, k, _ in seen])
    s = {0: init[0], 1: init[1]}
    for t in range(L + 1):
        if t:
            s = {k: f(k, t, s[k], want(t, k)) for k in s}
        same_activities(ctx, "activities", traj[t].activities, s)


@harness(quick=[{"top": 4, "topology": False}, {"top": 3, "topology": True}], thorough=[{"top": 9, "topology": True}])
def input_function(ctx, top, topology):
    """called for 1, 2, ... with the current activities and network until it returns None"""
    ntm = ctx.ntm
    net, init = ring(ctx)
    weights = [ctx.int("w0"), ctx.int("w1")]
    net = build(ctx, [0, 1], [(0, 1), (1, 0)], [{"w": weights[0]}, {"w": weights[1]}])
    end = ctx.int("end", 1, top + 1)
    g, f = ctx.fn("g", 4), ctx.fn("f", 4)
    per_node = ctx.flag("per_node")
    asked, seen = [], []

    def inp(t, activities, network):
        e = edges_of(network)
        asked.append((t, dict(activities), [e[(0, 1)][0]["w"], e[(1, 0)][0]["w"]]))
        if t == end:
            return None
        x = g(0, t, activities[0], e[(0, 1)][0]["w"])
        return [x, g(1, t, activities[1], e[(1, 0)][0]["w"])] if per_node else x

    def rule(c):
        seen.append((c.timestep, c.node_label, c.input))
        return f(c.node_label, c.timestep, c.current_activity, c.input)
    h = ctx.fn("h", 2)

    def topo(c):
        n = c.network
        n.update_edge(0, 1, w=h(c.timestep, n.edge(0, 1)[0]["w"]))
        return n
    traj = ntm.evolve(network=net, initial_conditions=init, activity_rule=rule, input=inp,
                      topology_rule=topo if topology else None, timesteps=ctx.choice("timesteps", [None, 2]))
    n = len(traj)
    ctx.check("the evolution ends when the function returns None", end == n)
    ctx.check("asked for 1, 2, ... once each", [a[0] for a in asked] == list(range(1, n + 1)))
    s, w = {0: init[0], 1: init[1]}, list(weights)
    for t in range(1, n + 1):
        same_activities(ctx, "the function gets the current activities", asked[t - 1][1], s)
        ctx.eq("the function gets the current network", asked[t - 1][2], w)
        same_activities(ctx, "activities", traj[t - 1].activities, s)
        if t < n:
            x = g(0, t, s[0], w[0])
            ins = [x, g(1, t, s[1], w[1]) if per_node else x]
            ctx.eq("the input is delivered", [[i for tt, k, i in seen if tt == t and k == kk] for kk in (0, 1)],
                   [[ins[0]], [ins[1]]])
            s = {k: f(k, t, s[k], ins[k]) for k in s}
            if topology:
                w = [h(t, w[0]), w[1]]


@harness(quick=[{"n": 3}], thorough=[{"n": 6}])
def words(ctx, n):
    """a string as input: a letter for every timestep (or, in a list, for every node)"""
    ntm = ctx.ntm
    per_node = ctx.flag("per_node")
    word = str(ctx.letters("word", n, "a", "c"))
    f = ctx.fn("f", 4)
    s = ctx.ints("s", 2 if per_node else 1)
    nodes = list(range(len(s)))
    inp = [word[t] + word[(t + 1) % n] for t in range(n)] if per_node else word
    got = []
    rule = lambda c: (got.append((c.timestep, c.node_label, c.input)), f(c.node_label, c.timestep, c.current_activity, "abc".index(c.input)))[1]
    traj = ntm.evolve(network=build(ctx, nodes, [(i, j) for i in nodes for j in nodes]), initial_conditions=list(s), activity_rule=rule, input=inp)
    ctx.check("one timestep for every letter", len(traj) == n + 1)
    letter = lambda t, k: word[(t - 1 + k) % n]
    ctx.check("the letter of the node and the timestep", got == [(t, k, letter(t, k)) for t in range(1, n + 1) for k in nodes])
    a = dict(enumerate(s))
    for t in range(1, n + 1):
        a = {k: f(k, t, a[k], "abc".index(letter(t, k))) for k in nodes}
        same_activities(ctx, "activities", traj[t].activities, a)


@harness(quick=[{}])
def neither(ctx):
    """timesteps or input is required; zero is an input like any other"""
    ntm = ctx.ntm
    net, init = ring(ctx)
    ctx.raises("neither timesteps nor input", lambda: ntm.evolve(network=net, initial_conditions=init,
                                                                 activity_rule=lambda c: 0))
    zeros = ctx.choice("zero", [0, False, 0.0])
    seen = []
    traj = ntm.evolve(network=net, initial_conditions=init, activity_rule=lambda c: seen.append(c.input) or c.current_activity,
                      input=lambda t, a, n: zeros if t < 3 else None)
    ctx.check("a falsy input does not end the evolution", len(traj) == 3 and seen == [zeros] * 4)
    seen.clear()
    traj = ntm.evolve(network=net, initial_conditions=init, activity_rule=lambda c: seen.append(c.input) or c.current_activity,
                      input=[0, [1, 0]], timesteps=9)
    ctx.check("a falsy item is delivered", len(traj) == 3 and seen == [0, 0, 1, 0])


@harness(quick=[{"inputs": i} for i in ("list", "function")])
def odd_values(ctx, inputs):
    """inputs and activities that are None (per node), falsy, containers, strings"""
    odd_evolution(ctx, inputs=inputs, topology=ctx.flag("topology"), perturb=ctx.flag("perturb"))


@harness(quick=[{"n": 11, "steps": 14}], thorough=[{"n": 20, "steps": 30}])
def long_runs(ctx, n, steps):
    """many inputs for many nodes, as a list and as a function, and many timesteps without"""
    long_evolution(ctx, n=n, steps=steps, inputs=ctx.choice("inputs", [None, "list", "function"]), topology=ctx.flag("topology"),
                   order=ctx.choice("order", ("ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS")))


@harness(quick=[{"n": 300}], thorough=[{"n": 1100}])
def many_inputs(ctx, n):
    """hundreds of inputs or timesteps"""
    ntm = ctx.ntm
    kind = ctx.choice("kind", ["list", "function", "timesteps", "tuple of rows"])
    xs = [ctx.int("x%d" % (t % 9)) + t for t in range(n)]
    f = ctx.fn("f", 3)
    s = ctx.int("s")
    got = []

    def rule(c):
        got.append(c.input)
        return f(c.timestep, c.current_activity, 0 if c.input is None else c.input)
    kw = {"list": dict(input=list(xs)), "function": dict(input=lambda t, a, w: xs[t - 1] if t <= n else None), "timesteps": dict(timesteps=n + 1),
          "tuple of rows": dict(input=tuple([x] for x in xs))}[kind]
    traj = ntm.evolve(network=build(ctx, [0], [(0, 0)]), initial_conditions=[s], activity_rule=rule, **kw)
    ctx.check("number of states", len(traj) == n + 1)
    ctx.check("number of rule calls", len(got) == n)
    ctx.eq("inputs in order", got, [None if kind == "timesteps" else x for x in xs])
    for t in range(1, n + 1):
        s = f(t, s, 0 if kind == "timesteps" else xs[t - 1])
        ctx.eq("activities", traj[t].activities[0], s)
