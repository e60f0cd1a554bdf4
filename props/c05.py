"""C05: past activities."""
from sx.harness import harness
from .common import build, long_evolution, odd_evolution, same_activities

BOUNDS = ("windows of 1 to 4 past conditions (lists, dicts or a mixture), 5 to 7 timesteps, 2 nodes, arbitrary integer past "
          "conditions and initial activities, an arbitrary function of node, time and all past activities as rule, every "
          "combination of persist_activities, persist_network, compression and a topology rule, the three update orders; activities, past conditions that are None, falsy, containers, strings or big numbers (solver-chosen shift of a table of 15); windows of up to 12 past conditions (thorough: 15) and runs of up to 14 timesteps (thorough: 40).")

OUTSIDE = "longer windows and runs; past conditions for nodes added during the evolution."


@harness(quick=[{"k": k, "steps": k + 3} for k in (1, 2, 3)] + [{"k": 4, "steps": 6}],
         thorough=[{"k": k, "steps": 9} for k in (1, 2, 3, 4, 6)])
def windows(ctx, k, steps):
    """index -1 is the activities one step before the previous ones, and so on"""
    ntm = ctx.ntm
    nodes = [0, 1]
    net = build(ctx, nodes, [(0, 1), (1, 0)])
    init = ctx.ints("s", 2)
    past = [ctx.ints("p%d_" % i, 2) for i in range(k)]
    kind = ctx.choice("kind", ["lists", "dicts", "mixed"])
    given = [{0: p[0], 1: p[1]} if kind == "dicts" or (kind == "mixed" and i % 2) else list(p) for i, p in enumerate(past)]
    topo = ctx.flag("topology")
    kw = {"persist_activities": ctx.flag("persist_activities"), "persist_network": ctx.flag("persist_network"),
          "compression": ctx.flag("compression"),
          "update_order": ctx.choice("order", list(ntm.UpdateOrder)) if topo else ntm.UpdateOrder.ACTIVITIES_FIRST}
    f = ctx.fn("f", 3 + 2 * k)
    seen = []

    def rule(c):
        # both ways of access, by negative and by positive index
        seen.append((c.timestep, c.node_label, len(c.past_activities),
                     [[c.past_activity_of(n, -1 - i) for n in nodes] for i in range(k)],
                     [[c.past_activities[k - 1 - i][n] for n in nodes] for i in range(k)],
                     [c.past_activity_of(n) for n in nodes],
                     [[c.past_activity_of(n, k - 1 - i) for n in nodes] for i in range(k)]))
        return f(c.node_label, c.timestep, c.current_activity, *[x for row in seen[-1][3] for x in row])
    traj = ntm.evolve(network=net, initial_conditions=list(init), activity_rule=rule, timesteps=steps,
                      past_conditions=given, topology_rule=(lambda c: c.network) if topo else None, **kw)
    hist = [list(p) for p in past] + [list(init)]   # hist[k + t] is the activities at time t
    for t in range(1, steps):
        past_t = [hist[k + t - 2 - i] for i in range(k)]
        flat = [x for row in past_t for x in row]
        hist.append([f(n, t, hist[k + t - 1][n], *flat) for n in nodes])
        mine = [c for c in seen if c[0] == t]
        ctx.check("one call per node", sorted(c[1] for c in mine) == nodes)
        for c in mine:
            ctx.check("k past activity maps", c[2] == k)
            ctx.eq("past activities", c[3], past_t)
            ctx.eq("past activities by index", c[4], past_t)
            ctx.eq("past activities by positive index", c[6], past_t)
            ctx.eq("the default is the most recent", c[5], past_t[0])
    ctx.check("number of states", len(traj) == steps)
    for t in range(steps):
        if kw["persist_activities"] or t == 0:
            same_activities(ctx, "activities", traj[t].activities, dict(enumerate(hist[k + t])))
    ctx.eq("the past conditions are not modified", given, [{0: p[0], 1: p[1]} if isinstance(g, dict) else list(p)
                                                           for g, p in zip(given, past)])


@harness(quick=[{}])
def none_given(ctx):
    """without past_conditions there are no past activities"""
    ntm = ctx.ntm
    net = build(ctx, [0, 1], [(0, 1), (1, 0)])
    seen = []
    past = ctx.choice("past", [None, []])
    f = ctx.fn("f", 2)
    ntm.evolve(network=net, initial_conditions=ctx.ints("s", 2), timesteps=4, past_conditions=past,
               activity_rule=lambda c: seen.append(c.past_activities) or f(c.node_label, c.current_activity))
    ctx.check("no past activities", len(seen) == 6 and all(p is None for p in seen))


@harness(quick=[{"k": 1}, {"k": 2}, {"k": 3}])
def driven(ctx, k):
    """the window is the same when an input drives the evolution and activities are perturbed"""
    ntm = ctx.ntm
    net = build(ctx, [0], [(0, 0)])
    init, past = ctx.int("s"), ctx.ints("p", k)
    f, g = ctx.fn("f", 2 + k), ctx.fn("g", 1)
    seen = []
    inputs = [ctx.int("i%d" % t) for t in range(4)]

    def rule(c):
        seen.append([p[0] for p in c.past_activities])
        return f(c.input, c.current_activity, *seen[-1])
    traj = ntm.evolve(network=net, initial_conditions=[init], activity_rule=rule, input=inputs,
                      past_conditions=[[p] for p in past], perturbation=lambda c: g(c.node_activity))
    hist = list(past) + [init]
    for t in range(1, 5):
        w = hist[t - 1:t - 1 + k]
        ctx.eq("past activities", seen[t - 1], w)
        hist.append(g(f(inputs[t - 1], hist[-1], *w)))
        ctx.eq("activities", traj[t].activities[0], hist[-1])


@harness(quick=[{"past": p} for p in (1, 2, 3)])
def odd_values(ctx, past):
    """past activities that are None, falsy, containers, strings"""
    odd_evolution(ctx, past=past, steps=5, perturb=ctx.flag("perturb"))


@harness(quick=[{"past": 3, "n": 4, "steps": 14}, {"past": 6, "n": 3, "steps": 12}, {"past": 12, "n": 2, "steps": 9}], thorough=[{"past": 15, "n": 4, "steps": 40}])
def long_runs(ctx, past, n, steps):
    """longer windows and many timesteps"""
    long_evolution(ctx, n=n, steps=steps, past=past, perturb=ctx.flag("perturb"), topology=ctx.flag("topology"), order=ctx.choice("order", ("ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS")),
                   compression=ctx.flag("compression"), persist_activities=ctx.flag("persist"))
