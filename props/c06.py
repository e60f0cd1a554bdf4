"""C06: memoization."""
import itertools
from sx import values as v
from sx.harness import harness
from .common import UF, build, graph_flags, multiset_eq, odd_evolution, same_activities

BOUNDS = ("rings of 3 with every rotation of two cells, 2 timesteps after the initial one; every directed graph with 2 "
          "nodes, with 3 nodes every subset of 5 edges; arbitrary activities (all equality patterns between them), an "
          "arbitrary function of the memoization key as rule: of the tuple of neighbourhood activities (rotation system), of their "
          "multiset (none), of a user key made of the current activity, the timestep parity or the node class; activities that are None, falsy, containers, strings or big numbers (solver-chosen shift of a table of 15); "
          "every two-state rule on a ring of 9 with additional edges for 8 timesteps (thorough: 16 nodes, 20 timesteps).")

OUTSIDE = "activities that are not hashable; rules that are not functions of the key; more nodes and timesteps."


class Table:
    """An arbitrary function of a key (compared by same(a, b)): fresh symbolic results, one per distinct key."""

    def __init__(self, ctx, same):
        self.ctx, self.same, self.rows = ctx, same, []

    def __call__(self, key):
        for k, r in self.rows:
            if self.same(k, key):
                return r
        r = self.ctx.opaque("result", None)
        self.rows.append((key, r))
        return r


def decided_eq(a, b):
    """equality decided on the path"""
    c = v.cond_term(v.deep_eq(a, b))
    return c if isinstance(c, bool) else bool(v.mkbool(c))


def compare(ctx, nodes, make, init, rule_of_key, key_of, steps, memo_key=None, same=decided_eq, seq=None, **kw):
    """memoized and plain evolution agree; the memoized one calls the rule at most once per key"""
    ntm = ctx.ntm
    plain = ntm.evolve(network=make(), initial_conditions=dict(init), activity_rule=lambda c: rule_of_key(key_of(c)),
                       timesteps=steps, **kw)
    called = []

    def rule(c):
        k = key_of(c)
        ctx.check("at most one call per key", not any(same(k, x) for x in called))
        called.append(k)
        return rule_of_key(k)
    memo = ntm.evolve(network=make(), initial_conditions=dict(init), activity_rule=rule, timesteps=steps, memoize=True,
                      memoization_key=memo_key, **kw)
    ctx.check("number of states", len(plain) == len(memo) == steps)
    for a, b in zip(plain, memo):
        same_activities(ctx, "same activities", b.activities, {k: a.activities[k] for k in nodes})


@harness(quick=[{"steps": 2}, {"steps": 3, "_weight": 5}], thorough=[{"steps": 4, "_weight": 9}])
def ordered(ctx, steps):
    """with a rotation system the key is the ordered tuple of neighbourhood activities"""
    nodes = [0, 1, 2]
    perms = list(itertools.permutations(nodes))
    rot = {0: (2, 0, 1), 1: perms[0] if ctx.flag("r1") else perms[3], 2: ctx.choice("rot", perms[:2] + [(1, 2), (2,)])}

    def make():
        net = build(ctx, nodes, [(i, j) for i in nodes for j in nodes])
        net.rotation_system = dict(rot)
        return net
    init = {k: ctx.opaque("s%d" % k, -3) for k in nodes}
    fs = {}

    def rule(key):
        n = len(key)
        if n not in fs:
            fs[n] = ctx.fn("f%d" % n, n, opaque=True)
        return fs[n](*key)
    compare(ctx, nodes, make, init, rule, lambda c: list(c.neighbourhood_activities), steps)


@harness(quick=[{"n": 2, "steps": 3}, {"n": 3, "steps": 2, "_weight": 3}], thorough=[{"n": 2, "steps": 4}, {"n": 3, "steps": 3, "_weight": 9}])
def unordered(ctx, n, steps):
    """without one it is the multiset of neighbourhood activities"""
    nodes = list(range(n))
    if n == 2:
        edges = graph_flags(ctx, nodes)
    else:
        edges = [(0, 1), (1, 2)] + [e for e in ((2, 0), (2, 1), (0, 2), (1, 1), (0, 0)) if ctx.flag("e%d%d" % e)]
    init = {k: ctx.opaque("s%d" % k, -3) for k in nodes}
    same = lambda a, b: multiset_eq(ctx, a, b)
    compare(ctx, nodes, lambda: build(ctx, nodes, edges), init, Table(ctx, same), lambda c: list(c.neighbourhood_activities),
            steps, same=same)


@harness(quick=[{"steps": 2}], thorough=[{"steps": 3, "_weight": 9}])
def unordered_counts(ctx, steps):
    """four in-neighbours: {a,a,b,b}, {a,a,a,b} and {a,b} are different keys"""
    nodes = [0, 1, 2, 3, 4]
    edges = [(0, 3), (1, 3), (2, 3), (3, 3), (0, 4), (1, 4), (0, 0), (0, 1), (1, 0), (2, 0), (3, 0)]
    a, b = ctx.opaque("a", -3), ctx.opaque("b", -3)
    init = {k: (a if ctx.flag("v%d" % k) else b) for k in nodes}
    same = lambda x, y: multiset_eq(ctx, x, y)
    compare(ctx, nodes, lambda: build(ctx, nodes, edges), init, Table(ctx, same), lambda c: list(c.neighbourhood_activities),
            steps, same=same)


@harness(quick=[{"kind": k, "rotation": r} for k in ("current", "time", "class") for r in (False, True)])
def user_key(ctx, kind, rotation):
    """the user's key decides, with and without a rotation system"""
    ntm = ctx.ntm
    nodes = [0, 1, 2]
    edges = [(0, 1), (1, 2), (2, 0), (0, 0)]
    key_of = {"current": lambda c: [c.current_activity] + [c.activities[n] for n in sorted(c.neighbour_labels)],
              "time": lambda c: [c.timestep % 2, c.current_activity],
              "class": lambda c: [0 if c.node_label < 2 else 1, c.activities[0]]}[kind]

    class Key(ntm.MemoizationKey):
        def to_key(self, c):
            return tuple(key_of(c))

    def make():
        net = build(ctx, nodes, edges)
        if rotation:
            net.rotation_system = {0: (0, 2), 1: (0,), 2: (1,)}
        return net
    init = {k: ctx.opaque("s%d" % k, -3) for k in nodes}
    fs = UFs(ctx)
    compare(ctx, nodes, make, init, lambda key: fs(*key), key_of, 3, memo_key=Key())


class UFs(UF):
    def __call__(self, *args):
        n = len(args)
        if n not in self.f:
            self.f[n] = self.ctx.fn("%s_%d" % (self.name, n), n, opaque=True)
        return self.f[n](*args)

    def __init__(self, ctx):
        UF.__init__(self, ctx, "f")


@harness(quick=[{"rotation": True}, {"rotation": False}])
def with_topology_rule(ctx, rotation):
    """the table outlives changes of the network; perturbed activities are not cached"""
    nodes = [0, 1]
    p = ctx.fn("perturb", 2, opaque=True)

    def make():
        net = build(ctx, nodes, [(0, 1), (1, 0), (0, 0)])
        if rotation:
            net.rotation_system = {0: (0, 1), 1: (0,)}
        return net

    def topo(c):
        if c.timestep == 1 and not rotation:
            c.network.add_edge(1, 1)
        return c.network
    init = {k: ctx.opaque("s%d" % k, -3) for k in nodes}
    same = decided_eq if rotation else (lambda a, b: multiset_eq(ctx, a, b))
    compare(ctx, nodes, make, init, Table(ctx, same), lambda c: list(c.neighbourhood_activities), 3, same=same,
            topology_rule=topo, copy_network=False,
            perturbation=lambda c: p(c.timestep, c.node_activity) if c.node_label == 0 else c.node_activity)


@harness(quick=[{}])
def odd_values(ctx):
    """results that are None, falsy, containers, strings"""
    odd_evolution(ctx, memoize=True, perturb=ctx.flag("perturb"), topology=ctx.flag("topology"))


@harness(quick=[{"n": 9, "steps": 8, "rotation": r, "_weight": 4} for r in (True, False)], thorough=[{"n": 16, "steps": 20, "rotation": r, "_weight": 9} for r in (True, False)])
def long_runs(ctx, n, steps, rotation):
    """every two-state rule on a ring with additional edges, for many timesteps"""
    nodes = list(range(n))
    edges = [((i + d) % n, i) for i in nodes for d in (-1, 0, 1)]
    edges += [] if rotation else [(5, 0), (7, 0), (8, 3), (1, 4)]
    init = {k: 1 if k == 0 or k > 5 and k % 3 else 0 for k in nodes}
    init[1] = 1 if ctx.flag("s") else 0

    def make():
        net = build(ctx, nodes, edges)
        if rotation:
            net.rotation_system = {i: ((i - 1) % n, i, (i + 1) % n) for i in nodes}
        return net
    outcome = {}

    def rule(key):
        key = tuple(key) if rotation else tuple(sorted(key))
        if key not in outcome:
            outcome[key] = 1 if ctx.flag("f%s" % "".join(map(str, key))) else 0
        return outcome[key]
    same = (lambda a, b: a == b) if rotation else (lambda a, b: sorted(a) == sorted(b))
    compare(ctx, nodes, make, init, rule, lambda c: list(c.neighbourhood_activities), steps, same=same)
