"""C24: reversible rules."""
from sx.harness import harness
from .common import UF, build, same_activities
from .c18 import bit, number

BOUNDS = ("rings of 3 and 4 nodes, a directed graph with 3 nodes and every initial pair of binary states, up to two older past conditions; one node for 40 steps; an arbitrary binary function "
          "of the neighbourhood as rule (also seven elementary rules), 2 to 5 timesteps; "
          "rings of 5, 11 and 12 for up to 110 timesteps (thorough: 31 for 100, 9 for 300) with some arbitrary cells.")

OUTSIDE = "nodes with more than two states (documented as unsupported); changing topologies; more nodes and timesteps."


def both_ways(ctx, nodes, net, f, steps, older=0):
    """f(activities of the neighbourhood) is an arbitrary binary rule"""
    ntm = ctx.ntm
    past = {k: ctx.int("p%d" % k, 0, 1) for k in nodes}
    init = {k: ctx.int("s%d" % k, 0, 1) for k in nodes}
    rule = lambda c: f(*[c.activities[k] for k in sorted(c.neighbour_labels)])
    # only the last past condition matters
    older = [{k: ctx.int("o%d_%d" % (a, k), 0, 1) for k in nodes} for a in range(older)]
    run = lambda i, p: ntm.evolve(network=net(), initial_conditions=dict(i), timesteps=steps, past_conditions=[dict(o) for o in older] + [dict(p)],
                                  activity_rule=ntm.ReversibleRule(rule))
    fwd = [dict(s.activities) for s in run(init, past)]
    ctx.check("number of states", len(fwd) == steps)
    # the definition: the rule's result XOR the activity two steps ago
    prev, cur, want = past, init, [init]
    adj = {k: [] for k in nodes}
    for i, j, _ in net().edges:
        adj[j].append(i)
    for t in range(1, steps):
        new = {k: ctx.ite(f(*[cur[i] for i in sorted(adj[k])]) == prev[k], 0, 1) for k in nodes}
        prev, cur = cur, new
        want.append(new)
    for t in range(steps):
        same_activities(ctx, "rule XOR past", fwd[t], want[t])
    back = [s.activities for s in run(fwd[-2], fwd[-1])]
    everything = [past] + fwd
    for t in range(steps):
        same_activities(ctx, "evolved backwards", back[t], everything[steps - 1 - t])


@harness(quick=[{"steps": 4}], thorough=[{"steps": 6, "_weight": 9}])
def ring_any_rule(ctx, steps):
    """an arbitrary rule on a ring of three"""
    nodes = [0, 1, 2]
    f = UF(ctx, "f", 0, 1)
    both_ways(ctx, nodes, lambda: ctx.ntm.topology.cellular_automaton(3), f, steps)


@harness(quick=[{"steps": 3, "n": 3}, {"steps": 2, "n": 4}], thorough=[{"steps": 4, "n": 4, "_weight": 9}, {"steps": 3, "n": 5, "_weight": 9}])
def ring_elementary(ctx, steps, n):
    """elementary rules"""
    ntm = ctx.ntm
    nodes = list(range(n))
    rule = ctx.choice("rule", [30, 45, 90, 110, 122, 150, 255])
    past, init = {k: ctx.int("p%d" % k, 0, 1) for k in nodes}, [ctx.int("s%d" % k, 0, 1) for k in nodes]
    net = ntm.topology.cellular_automaton(n)
    r = ntm.ReversibleRule(ntm.rules.nks_ca_rule(rule))
    fwd = [s.activities for s in ntm.evolve(network=net, initial_conditions=list(init), timesteps=steps, past_conditions=[past],
                                            activity_rule=r)]
    prev, cur = past, dict(enumerate(init))
    for t in range(1, steps):
        new = {k: ctx.ite(bit(ctx, rule, 8, number([cur[(k - 1) % n], cur[k], cur[(k + 1) % n]])) == prev[k], 0, 1) for k in nodes}
        prev, cur = cur, new
        same_activities(ctx, "rule XOR past", fwd[t], new)
    back = [s.activities for s in ntm.evolve(network=net, initial_conditions=dict(fwd[-2]), timesteps=steps,
                                             past_conditions=[dict(fwd[-1])], activity_rule=r)]
    for t, want in enumerate(([past] + fwd)[:-1][::-1][1:]):
        same_activities(ctx, "evolved backwards", back[t + 1], want)


@harness(quick=[{"steps": 5}], thorough=[{"steps": 7, "_weight": 9}])
def directed_graph(ctx, steps):
    """in-degrees 0 to 3, a self-loop"""
    nodes = [0, 1, 2]
    f = UF(ctx, "f", 0, 1)
    both_ways(ctx, nodes, lambda: build(ctx, nodes, [(0, 1), (2, 1), (1, 1), (1, 2)]), f, steps)


@harness(quick=[{"steps": 3, "older": 1}, {"steps": 3, "older": 2}])
def longer_past(ctx, steps, older):
    """with more than one past condition the last one is the activity two steps ago"""
    nodes = [0, 1]
    f = UF(ctx, "f", 0, 1)
    both_ways(ctx, nodes, lambda: build(ctx, nodes, [(0, 1), (1, 1), (1, 0)]), f, steps, older)


@harness(quick=[{"steps": 40}])
def long_run(ctx, steps):
    """one node that reads itself, many steps"""
    f = UF(ctx, "f", 0, 1)
    both_ways(ctx, [0], lambda: build(ctx, [0], [(0, 0)]), f, steps)


@harness(quick=[{"n": 11, "steps": 12}, {"n": 12, "steps": 30}, {"n": 5, "steps": 110}], thorough=[{"n": 31, "steps": 100}, {"n": 9, "steps": 300}])
def long_rings(ctx, n, steps):
    """longer rings and runs of elementary rules with some arbitrary cells"""
    ntm = ctx.ntm
    number = ctx.choice("rule", [30, 90, 110, 214])
    past, init = {k: k * k % 3 % 2 for k in range(n)}, [(k * k + k // 3) % 2 for k in range(n)]
    past[n - 1], init[0], init[n // 2] = [1 if ctx.flag(x) else 0 for x in "pab"]
    net = ntm.topology.cellular_automaton(n)
    r = ntm.ReversibleRule(ntm.rules.nks_ca_rule(number))
    run = lambda i, p: [dict(s.activities) for s in ntm.evolve(network=net, initial_conditions=i, timesteps=steps, past_conditions=[p], activity_rule=r)]
    fwd = run(list(init), past)
    prev, cur = past, dict(enumerate(init))
    for t in range(1, steps):
        new = {k: (number >> (4 * cur[(k - 1) % n] + 2 * cur[k] + cur[(k + 1) % n]) & 1) ^ prev[k] for k in range(n)}
        prev, cur = cur, new
        same_activities(ctx, "rule XOR past", fwd[t], new)
    back = run(fwd[-2], fwd[-1])
    for t, want in enumerate(([past] + fwd)[:-1][::-1][1:]):
        same_activities(ctx, "evolved backwards", back[t + 1], want)
