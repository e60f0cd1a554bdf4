"""C08: activity rules that add and remove nodes."""
from sx.harness import harness
from .common import ODD, ODD_PACKED, Odd, UF, build, edges_of, graph_flags, same_activities, same_map, same_network

BOUNDS = ("every combination, per node and timestep, of: nothing, removing itself, removing another node, adding a node with "
          "links to surviving nodes, to itself or to another added node, removing and re-adding a node, several of these at "
          "once; 2 and 3 initial nodes, 2 timesteps with changes and one without, parallel edges and self-loops, arbitrary "
          "activities, states and link weights, an arbitrary activity rule; with and without a topology rule, "
          "copy_network, and a list or dict of initial conditions; activities, states of added nodes that are None, falsy, containers, strings or big numbers (solver-chosen shift of a table of 15); "
          "7 timesteps in which nodes come and go on 8 nodes (thorough: 19 on 16).")

OUTSIDE = ("a topology rule in a step that leaves no node at all (it is an error to return an empty network); links of an added node to a node removed in the same step; the same label added twice in a step; the update orders "
           "other than ACTIVITIES_FIRST, which are documented to ignore added and removed nodes; the states of added nodes that msgpack cannot represent (they are kept as an attribute of the node); the rotation system of a network "
           "whose nodes change.")


class Model:
    """the directed multigraph and the activities the statement defines"""

    def __init__(self, nodes, edges, acts):
        self.nodes, self.edges, self.acts = list(nodes), {k: [dict(x) for x in e] for k, e in edges.items()}, dict(acts)

    def args(self, t, n):
        a = [t, n, self.acts[n]]
        for m in sorted(self.nodes):
            for x in self.edges.get((m, n), []):
                a += [m, self.acts[m], x["w"]]
        return a

    def step(self, t, f, removed, added):
        new = {n: f(*self.args(t, n)) for n in self.nodes if n not in removed}
        nodes = [n for n in self.nodes if n not in removed]
        edges = {(i, j): e for (i, j), e in self.edges.items() if i not in removed and j not in removed}
        for state, links, label in added:
            new[label] = state
            if label not in nodes:
                nodes.append(label)
            for target, attrs in links.items():
                edges.setdefault((label, target), []).append(dict(attrs))
        return Model(nodes, edges, new)


def drive(ctx, nodes, net, init, plan, steps, topology=False, **kw):
    """plan(t, n) -> list of ("remove", label) / ("add", state, links, label)"""
    ntm = ctx.ntm
    f = UF(ctx, "f")
    seen, tseen = [], []
    plans = {}

    def rule(c):
        seen.append((c.timestep, c.node_label))
        p = plans.get((c.timestep, c.node_label))
        if p is None:
            p = plans[(c.timestep, c.node_label)] = plan(c.timestep, c.node_label)
        for op in p:
            if op[0] == "remove":
                c.remove_node(op[1])
            else:
                c.add_node(op[1], {k: dict(x) for k, x in op[2].items()}, op[3])
        args = [c.timestep, c.node_label, c.current_activity]
        for m in sorted(c.neighbour_labels):
            for x in c.connection_states[m]:
                args += [m, c.activities[m], x["w"]]
        ctx.check("neighbourhood activities", len(c.neighbourhood_activities) == len(c.neighbour_labels) ==
                  len(c.connection_states))
        ctx.eq("neighbourhood activities", c.neighbourhood_activities, [c.activities[m] for m in c.neighbour_labels])
        return f(*args)

    def topo(c):
        tseen.append((sorted(c.network.nodes), dict(c.activities)))
        return c.network
    m = Model(nodes, edges_of(net), init)
    models = [m]
    traj = ntm.evolve(network=net, initial_conditions=dict(init), activity_rule=rule, timesteps=steps,
                      topology_rule=topo if topology else None, **kw)
    ctx.check("number of states", len(traj) == steps)
    for t in range(steps):
        if t:
            removed, added = set(), []
            for n in m.nodes:
                for op in plans.get((t, n), []):
                    if op[0] == "remove":
                        removed.add(op[1])
                    else:
                        added.append(op[1:])
            ctx.check("every node is evaluated once", sorted(n for tt, n in seen if tt == t) == sorted(m.nodes))
            m = m.step(t, f, removed, added)
            if topology:
                ctx.check("the topology rule sees the new nodes", tseen[t - 1][0] == sorted(m.nodes))
                same_activities(ctx, "the topology rule sees the new activities", tseen[t - 1][1], m.acts)
        if m.nodes:
            same_activities(ctx, "activities", traj[t].activities, m.acts)
            same_network(ctx, "network", traj[t].network, m.nodes, m.edges)
            for n in m.nodes:
                ctx.check("degrees", traj[t].network.in_degree(n) == sum(len(e) for k, e in m.edges.items() if k[1] == n) and
                          traj[t].network.out_degree(n) == sum(len(e) for k, e in m.edges.items() if k[0] == n))
        models.append(m)
    return m


@harness(quick=[{"topology": False, "_weight": 3}, {"topology": True, "_weight": 3}])
def two_nodes(ctx, topology):
    """all single actions of two nodes at t=1 and of the first node at t=2"""
    nodes = [0, 1]
    edges = [(0, 1), (0, 1), (1, 0), (1, 1)]
    net = build(ctx, nodes, edges, [{"w": ctx.int("w%d" % k)} for k in range(len(edges))])
    init = dict(zip(nodes, ctx.ints("s", 2)))
    did = []

    def plan(t, n):
        if t == 1:
            other = 1 - n
            what = ctx.choice("t1n%d" % n, ["nothing", "self", "other", "add", "replace"])
            if topology and n == 1:
                # a topology rule has no network to return if nothing is left
                ctx.assume((did[0], what) not in (("self", "self"), ("other", "other")))
            did.append(what)
            new = 10 + n
            return {"nothing": [], "self": [("remove", n)], "other": [("remove", other)],
                    "add": [("add", ctx.int("x%d" % n), {new: {"w": ctx.int("lw%d" % n)}}, new)],
                    "replace": [("remove", n), ("add", ctx.int("y%d" % n), {n: {"w": ctx.int("rw%d" % n)}}, n)]}[what]
        if t == 2 and n >= 10:
            return [("remove", n)] if ctx.flag("t2n%d" % n) else []
        return []
    drive(ctx, nodes, net, init, plan, 4, topology)


@harness(quick=[{"who": w, "_weight": 2} for w in (0, 1, 2)],
         thorough=[{"who": w, "copying": False} for w in (0, 1, 2)])
def one_actor(ctx, who, copying=True):
    """three nodes: one node does several things at once, with links to surviving and other added nodes"""
    nodes = [0, 1, 2]
    edges = [(0, 1), (1, 2), (2, 0), (1, 1), (0, 1)]
    net = build(ctx, nodes, edges, [{"w": ctx.int("w%d" % k)} for k in range(len(edges))])
    init = dict(zip(nodes, ctx.ints("s", 3)))

    def plan(t, n):
        if n != who or t > 2:
            return []
        ops, gone = [], set()
        for m in nodes:
            if t == 1 and ctx.flag("remove%d" % m):
                ops.append(("remove", m))
                gone.add(m)
        alive = [m for m in nodes if m not in gone] if t == 1 else [who]
        for a in range(2):
            if ctx.flag("add%d_%d" % (t, a)):
                label = 10 * t + a
                targets = [m for m in alive if ctx.flag("link%d_%d_%d" % (t, a, m))]
                ops.append(("add", ctx.int("x%d_%d" % (t, a)), {m: {"w": ctx.int("lw%d_%d_%d" % (t, a, m))} for m in targets},
                            label))
        if len([o for o in ops if o[0] == "add"]) == 2 and ctx.flag("between%d" % t):
            # the first added node links to the second one, which is added after it
            ops[-2][2][10 * t + 1] = {"w": ctx.int("between_w%d" % t)}
        return ops
    drive(ctx, nodes, net, init, plan, 3, copy_network=copying)


@harness(quick=[{"graph": g} for g in range(3)], thorough=[{"graph": g, "top": 3} for g in range(3)])
def any_removals(ctx, graph, top=2):
    """every set of removals requested by every node, on three graphs; also the same node removed by several"""
    nodes = [0, 1, 2]
    edges = [[(0, 1), (1, 2), (2, 0)], [(0, 0), (0, 1), (1, 0), (1, 2), (1, 2)], [(2, 2), (2, 2), (0, 2), (2, 1)]][graph]
    net = build(ctx, nodes, edges, [{"w": ctx.int("w%d" % k)} for k in range(len(edges))])
    init = dict(zip(nodes, ctx.ints("s", 3)))
    keep = ctx.choice("keep", nodes)

    def plan(t, n):
        if t > 1 and top < 3 or t > 2:
            return []
        return [("remove", m) for m in nodes if m != keep and (t == 1 or m == n) and ctx.flag("r%d_%d_%d" % (t, n, m))]
    drive(ctx, nodes, net, init, plan, 3)


@harness(quick=[{"memory": m} for m in (False, True)])
def growing_then_shrinking(ctx, memory):
    """nodes added in three consecutive steps and removed again, with links to earlier ones"""
    nodes = [0]
    net = build(ctx, nodes, [(0, 0)], [{"w": ctx.int("w")}])
    init = {0: ctx.int("s")}
    links = ctx.flag("links")

    def plan(t, n):
        if t <= 3 and n == 0:
            return [("add", ctx.int("x%d" % t), {t - 1: {"w": ctx.int("lw%d" % t)}} if links else {}, t)]
        if t == 4 and n and ctx.flag("drop%d" % n):
            return [("remove", n)]
        if t == 5 and n == 3:
            return [("remove", 0), ("add", ctx.int("y"), {3: {"w": ctx.int("lw")}}, 0)]
        return []
    drive(ctx, nodes, net, init, plan, 7, persist_network=True, compression=memory)


@harness(quick=[{}])
def everything_removed(ctx):
    """all nodes remove themselves; in the next step nothing is left"""
    ntm = ctx.ntm
    net = build(ctx, [0, 1], [(0, 1), (1, 0)])
    calls = []

    def rule(c):
        calls.append(c.timestep)
        c.remove_node(c.node_label)
        return 0
    traj = ntm.evolve(network=net, initial_conditions=ctx.ints("s", 2), activity_rule=rule, timesteps=3)
    ctx.check("the rule is not called any more", calls == [1, 1])
    ctx.check("no activities", len(traj) == 3 and not traj[1].activities and not traj[2].activities)
    ctx.check("no nodes", not traj[1].network and not traj[2].network)
    ctx.check("the initial state is kept", sorted(traj[0].activities) == [0, 1] and len(traj[0].network) == 2)


@harness(quick=[{"topology": t} for t in (False, True)])
def odd_values(ctx, topology):
    """added nodes whose state, and rules whose result, is None, falsy, a container or a string"""
    ntm = ctx.ntm
    odd = Odd(ctx, ODD_PACKED if topology else ODD)
    nodes, new = [0, 1, 2], ctx.choice("new", [3, "", "x"])
    net = build(ctx, nodes, [(0, 1), (1, 2), (2, 0), (1, 1)])
    removed = ctx.choice("removed", [None, 0, 1, 2])
    tseen = []

    def rule(c):
        if c.timestep == 1 and c.node_label == 1:
            if removed is not None:
                c.remove_node(removed)
            c.add_node(odd("new"), {}, new)
        if c.timestep == 2 and c.node_label == new:
            ctx.check("the added node starts with its state", same_map({0: c.current_activity}, {0: odd("new")}))
        return odd("f", c.timestep, (nodes + [new]).index(c.node_label))

    def topo(c):
        tseen.append(dict(c.activities))
        return c.network
    traj = ntm.evolve(network=net, initial_conditions={k: odd("s", 0, k) for k in nodes}, activity_rule=rule, timesteps=3,
                      topology_rule=topo if topology else None)
    left = [k for k in nodes if k != removed]
    want = [{k: odd("s", 0, k) for k in nodes}, {k: odd("f", 1, k) for k in left}, {k: odd("f", 2, k) for k in left}]
    want[1][new], want[2][new] = odd("new"), odd("f", 2, 3)
    for t in range(3):
        ctx.check("activities", same_map(traj[t].activities, want[t]))
        ctx.check("nodes", set(traj[t].network.nodes) == set(want[t]))
        if topology and t:
            ctx.check("the topology rule sees the new activities", same_map(tseen[t - 1], want[t]))


@harness(quick=[{"n": 8, "steps": 8, "choices": 4}], thorough=[{"n": 16, "steps": 20, "choices": 4, "_weight": 5}])
def long_runs(ctx, n, steps, choices):
    """many timesteps: nodes come and go in most of them, with links to older and newer ones"""
    nodes = list(range(n))
    edges = [(i, (i + 1) % n) for i in nodes] + [(0, 3), (0, 3), (2, 2)]
    net = build(ctx, nodes, edges, [{"w": ctx.int("w%d" % k)} for k in range(len(edges))])
    init = dict(zip(nodes, ctx.ints("s", n)))
    alive, gone, kinds = list(nodes), {}, {}

    def plan(t, node):
        if (t, "alive") not in gone:
            # who is there at the start of this timestep
            gone[(t, "alive")] = now = list(alive)
            kinds[t] = ctx.choice("t%d" % t, range(3)) if t <= choices else t % 3
        now = gone[(t, "alive")]
        k, at, ops = kinds[t], now.index(node), []
        if t % 4 == 3:
            return []
        if at == t % len(now) and k != 1 and len(now) > 2:
            # leaves, and a new one takes its place with links to all the others
            others = [x for x in now if x != node]
            ops = [("remove", node), ("add", ctx.int("x%d" % t), {x: {"w": ctx.int("lw%d_%d" % (t, x))} for x in others[1:5]}, 100 + t)]
            alive.remove(node)
            alive.append(100 + t)
        if at == len(now) - 1 and k == 1:
            keep = [x for x in now if x != now[t % len(now)]]
            ops = [("add", ctx.int("y%d" % t), {x: {"w": ctx.int("kw%d_%d" % (t, x))} for x in keep[:2]}, 200 + t),
                   ("add", ctx.int("z%d" % t), {200 + t: {"w": ctx.int("zw%d" % t)}, 300 + t: {"w": 3}}, 300 + t)]
            alive.extend([200 + t, 300 + t])
        return ops
    drive(ctx, nodes, net, init, plan, steps, ctx.flag("topology"), compression=ctx.flag("compression"))
