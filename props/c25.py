"""C25: asynchronous rules."""
import itertools
from sx.harness import harness
from .common import UF, build, same_activities

BOUNDS = ("complete graphs with 1 to 4 nodes and arbitrary activities, an arbitrary function of the neighbourhood as wrapped rule; every "
          "update order of every subset (integer and string labels, lists and tuples) and every order of up to 3 places with repeated nodes (thorough: 4 and 6), every outcome of every shuffle of 1 to 3 nodes "
          "(re-randomized orders of 3 nodes: of the first draws), two cycles; "
          "orders of up to 11 of 12 nodes, up to 13 cycles of 69 of 70 nodes for two cycles (thorough: 17 of 20, 131 of 150); two rules at work in turns.")

OUTSIDE = ("when exactly a re-randomized order is shuffled (after every step, in this code); update orders with labels that are not in the network; networks that change while they evolve; reuse of one rule object for several "
           "evolutions.")


def network(ctx, labels):
    return build(ctx, labels, [(i, j) for i in labels for j in labels])


def num(label):
    """a number for a label"""
    return label if isinstance(label, int) else ord(label[-1])


def contributions(f, c):
    """the wrapped rule: an arbitrary function of the node and the neighbourhood"""
    return f(*([num(c.node_label)] + [c.activities[k] for k in sorted(c.activities)]))


def evolution(ctx, labels, rule, init, steps):
    traj = ctx.ntm.evolve(network=network(ctx, labels), initial_conditions=dict(init), timesteps=steps, activity_rule=rule)
    ctx.check("number of states", len(traj) == steps)
    return [dict(s.activities) for s in traj]


def follow(ctx, label, states, order_of, f, labels):
    """state t+1 differs from state t exactly in the node order_of(t), which takes the wrapped rule's result"""
    for t in range(1, len(states)):
        before = states[t - 1]
        want = dict(before)
        k = order_of(t - 1)
        want[k] = f(*([num(k)] + [before[x] for x in sorted(before)]))
        same_activities(ctx, label, states[t], want)


@harness(quick=[{"n": 1, "m": 1, "strings": 0}, {"n": 2, "m": 2, "strings": 1}, {"n": 3, "m": 3, "strings": 0}, {"n": 3, "m": 2, "strings": 1},
                {"n": 3, "m": 1, "strings": 0}, {"n": 4, "m": 2, "strings": 0}, {"n": 4, "m": 4, "strings": 1},
                {"n": 2, "m": 2, "strings": 2}, {"n": 3, "m": 2, "strings": 3}],
         thorough=[{"n": 5, "m": 5, "strings": 0}, {"n": 5, "m": 3, "strings": 1}])
def given_order(ctx, n, m, strings):
    """every update order of every subset with m nodes"""
    labels = [list(range(n)), list("abcdef"[:n]), [3 ** 7 - i for i in range(n)], ["node %s" % x for x in "abcdef"[:n]]][strings]
    order = ctx.choice("order", itertools.permutations(labels, m))
    f = UF(ctx, "f")
    init = {k: ctx.int("s%s" % k) for k in labels}
    # labels that are equal to the network's, but not the same objects
    order = [int(str(x)) if isinstance(x, int) else "".join(list(x)) for x in order]
    given = list(order) if ctx.flag("list") else tuple(order)
    rule = ctx.ntm.AsynchronousRule(lambda c: contributions(f, c), update_order=given)
    states = evolution(ctx, labels, rule, init, 2 * m + 2)
    follow(ctx, "the node whose turn it is", states, lambda t: order[t % m], f, labels)


@harness(quick=[{"n": 1, "m": 2}, {"n": 2, "m": 3}, {"n": 3, "m": 3}], thorough=[{"n": 3, "m": 4}, {"n": 4, "m": 4}, {"n": 2, "m": 6}])
def repeated_nodes(ctx, n, m):
    """an order in which nodes occur several times"""
    labels = ["a", 7, "node", (1, 2)][:n]
    order = ctx.choice("order", [o for o in itertools.product(labels, repeat=m) if len(set(o)) < m])
    at = {x: i for i, x in enumerate(labels)}
    f, init = UF(ctx, "f"), {k: ctx.int("s%d" % at[k]) for k in labels}
    rule = ctx.ntm.AsynchronousRule(lambda c: f(at[c.node_label], c.timestep, *[c.activities[k] for k in labels]), update_order=list(order))
    traj = ctx.ntm.evolve(network=network(ctx, labels), initial_conditions=dict(init), timesteps=2 * m + 2, activity_rule=rule)
    s = dict(init)
    for t in range(1, 2 * m + 2):
        k = order[(t - 1) % m]
        s = {x: f(at[k], t, *[s[y] for y in labels]) if x == k else s[x] for x in labels}
        same_activities(ctx, "the node whose turn it is", traj[t].activities, s)


@harness(quick=[{"n": 1}, {"n": 2}, {"n": 3, "_weight": 3}], thorough=[{"n": 4, "_weight": 9}])
def shuffled_once(ctx, n):
    """with n given: one permutation, the same in every cycle"""
    labels = list(range(n))
    f = UF(ctx, "f")
    init = {k: ctx.int("s%s" % k) for k in labels}
    rule = ctx.ntm.AsynchronousRule(lambda c: contributions(f, c), n=n)
    states = evolution(ctx, labels, rule, init, 2 * n + 1)
    options = []
    for perm in itertools.permutations(labels):
        conds = []
        for t in range(2 * n):
            a, b, k = states[t], states[t + 1], perm[t % n]
            conds += [b[x] == (f(*([k] + [a[y] for y in sorted(a)])) if x == k else a[x]) for x in labels]
        options.append(ctx.both(*conds))
    ctx.check("one permutation of all nodes, again and again", ctx.either(*options))


@harness(quick=[{"n": 2, "m": 2, "by_n": 1, "cyc": 2}, {"n": 3, "m": 2, "by_n": 0, "cyc": 2}, {"n": 3, "m": 3, "by_n": 0, "cyc": 2, "free": 4, "_weight": 5},
                {"n": 3, "m": 3, "by_n": 1, "cyc": 2, "free": 6, "_weight": 9}, {"n": 2, "m": 1, "by_n": 0, "cyc": 2}],
         thorough=[{"n": 4, "m": 3, "by_n": 0, "cyc": 3, "_weight": 9}, {"n": 4, "m": 4, "by_n": 0, "cyc": 2, "_weight": 9}])
def shuffled_again(ctx, n, m, by_n, cyc, free=None):
    """with randomize_each_cycle: one of the given nodes per step (not one of 0..m-1)"""
    labels = list(range(n)) if by_n else ["c", "a", "b", "d"][:n]
    moving = labels[:m]
    f = UF(ctx, "f")
    init = {k: ctx.int("s%s" % k) for k in labels}
    if free:
        ctx.first_draws(free, [0.5, 0.9, 0.1, 0.7, 0.3])
    kw = {"n": n} if by_n else {"update_order": list(moving)}
    rule = ctx.ntm.AsynchronousRule(lambda c: contributions(f, c), randomize_each_cycle=True, **kw)
    states = evolution(ctx, labels, rule, init, cyc * m + 1)
    num = lambda x: x if isinstance(x, int) else ord(x)
    for a, b in zip(states, states[1:]):
        options = [ctx.both(*[b[x] == (f(*([num(k)] + [a[y] for y in sorted(a)])) if x == k else a[x]) for x in labels]) for k in moving]
        ctx.check("one node of the order is updated, the others keep their activity", ctx.either(*options))


@harness(quick=[{}])
def neither(ctx):
    """an order or a number of nodes is required"""
    ctx.raises("neither order nor n", lambda: ctx.ntm.AsynchronousRule(lambda c: 0))


def order_at(order, k):
    return k % len(order)


@harness(quick=[{"n": 12, "m": 11, "cycles": 3}, {"n": 5, "m": 4, "cycles": 8}, {"n": 11, "m": 2, "cycles": 13}, {"n": 70, "m": 69, "cycles": 2, "large": 1}], thorough=[{"n": 20, "m": 17, "cycles": 5}, {"n": 150, "m": 131, "cycles": 2, "large": 1}], path_seconds=120)
def long_orders(ctx, n, m, cycles, large=0):
    """many nodes, long orders and many cycles"""
    labels = list(range(n)) if ctx.flag("integers") else ["n%d" % i for i in range(n)]
    order = [labels[(i * 7 + 3) % n] for i in range(n)][:m] if n % 7 else labels[:m]
    at = {x: i for i, x in enumerate(labels)}
    f, init = UF(ctx, "f"), dict(zip(labels, ctx.ints("s", n)))
    if large:
        x = ctx.int("x", 0, 9)
        init = {l: i * i % 7 if i != order_at(order, 3) else x for l, i in at.items()}
        f = lambda a, t, s, *near: 3 * s + sum(near) + a if t < 9 else (a * t) % 11
    seen = []

    def wrapped(c):
        seen.append(c.node_label)
        return f(at[c.node_label], c.timestep, c.current_activity, *[c.activities[x] for x in sorted(c.neighbour_labels, key=at.get)])
    net = build(ctx, labels, [(labels[i], labels[(i + d) % n]) for i in range(n) for d in (1, 3)])
    rule = ctx.ntm.AsynchronousRule(wrapped, update_order=list(order))
    steps = m * cycles
    traj = ctx.ntm.evolve(network=net, initial_conditions=dict(init), timesteps=steps + 1, activity_rule=rule)
    s = dict(init)
    for t in range(1, steps + 1):
        k = order[(t - 1) % m]
        near = sorted(((at[k] - d) % n for d in (1, 3)))
        s = {x: f(at[k], t, s[k], *[s[labels[i]] for i in near]) if x == k else y for x, y in s.items()}
        same_activities(ctx, "the node whose turn it is", traj[t].activities, s)
    ctx.check("the wrapped rule is asked for the node whose turn it is", seen == [order[t % m] for t in range(steps)])


@harness(quick=[{}])
def two_rules(ctx):
    """two asynchronous rules at work in turns: the one does not move the other on; the given order may be reused"""
    ntm = ctx.ntm
    order = ctx.choice("order", [[0, 1, 2], [2, 0], ["b", "a"]])
    labels = order if 2 in order and len(order) == 3 else [0, 1, 2] if 2 in order else ["a", "b", "c"]
    labels = sorted(labels)
    given = list(order)
    f = UF(ctx, "f")
    rules = [ntm.AsynchronousRule(lambda c: contributions(f, c), update_order=given) for _ in range(2)]
    states = [{k: ctx.int("s%d_%s" % (j, k)) for k in labels} for j in range(2)]
    place = [0, 0]
    for turn in (0, 1, 1, 0, 0, 1):
        s = states[turn]
        traj = ntm.evolve(network=network(ctx, labels), initial_conditions=dict(s), timesteps=2, activity_rule=rules[turn])
        k = order[place[turn] % len(order)]
        want = dict(s)
        want[k] = f(*([num(k)] + [s[x] for x in sorted(s)]))
        same_activities(ctx, "the node whose turn it is", traj[1].activities, want)
        states[turn], place[turn] = want, place[turn] + 1
    ctx.check("the given order is as before", given == order)
