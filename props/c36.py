"""C36: the Hopfield net."""
from sx.harness import harness

BOUNDS = ("2 to 5 nodes, 1 to 4 arbitrary bipolar patterns, three given lists of 3 to 5 patterns, arbitrary bipolar start states, every outcome of the shuffles (the first 4 to 6 draws "
          "arbitrary, later ones fixed), 2 to 7 timesteps; "
          "7 and 12 nodes for up to 20 timesteps (thorough: 25 nodes, 60 timesteps) with given patterns, one place of which is arbitrary; 140 patterns of 3 nodes (400); 60 timesteps of 4 nodes (300), in two evolutions.")

OUTSIDE = "which of several patterns is recalled; more nodes; states that are not bipolar."


def bipolar(ctx, name):
    return 2 * ctx.int(name, 0, 1) - 1


def hebbian(P):
    n = len(P[0])
    return [[sum(p[i] * p[j] for p in P) if i != j else 0 for j in range(n)] for i in range(n)]


def trained(ctx, n, patterns):
    P = [[bipolar(ctx, "p%d_%d" % (k, i)) for i in range(n)] for k in range(patterns)]
    net = ctx.ntm.HopfieldNet(n=n)
    net.train([list(p) for p in P])
    return P, net


@harness(quick=[{"n": 2, "patterns": 1}, {"n": 3, "patterns": 2}, {"n": 4, "patterns": 1}, {"n": 3, "patterns": 4, "_weight": 3}, {"n": 4, "patterns": 2, "_weight": 4}],
         thorough=[{"n": 4, "patterns": 3, "_weight": 9}, {"n": 5, "patterns": 2, "_weight": 9}])
def training(ctx, n, patterns):
    """Hebbian weights, as the matrix and as the network; training again replaces them"""
    P, net = trained(ctx, n, patterns)
    if ctx.flag("again"):
        P = P[:1]
        net.train([list(p) for p in P])
    want = hebbian(P)
    got = net.adjacency_matrix
    ctx.check("size", len(got) == n and all(len(r) == n for r in got) and net.num_nodes == n)
    ctx.eq("weights", [[got[i][j] for j in range(n)] for i in range(n)], want)
    network = net.network
    ctx.check("the nodes of the network", set(network.nodes) == set(range(n)))
    edges = {}
    for i, j, a in network.edges:
        edges.setdefault((i, j), []).append(a["weight"])
    for i in range(n):
        for j in range(n):
            e = edges.get((i, j), [])
            ctx.check("at most one connection", len(e) <= 1)
            ctx.eq("weight of the connection", e[0] if e else 0, want[i][j])


def energy(w, s):
    n = len(s)
    return -sum(w[i][j] * s[i] * s[j] for i in range(n) for j in range(i + 1, n))


@harness(quick=[{"n": 2, "patterns": 2, "steps": 3, "draws": 3}, {"n": 3, "patterns": 1, "steps": 3, "draws": 4}, {"n": 3, "patterns": 2, "steps": 2, "draws": 4, "_weight": 4},
                {"n": 4, "patterns": 2, "steps": 1, "draws": 3, "_weight": 9}],
         thorough=[{"n": 3, "patterns": 3, "steps": 4, "draws": 6, "_weight": 9}, {"n": 4, "patterns": 2, "steps": 3, "draws": 5, "_weight": 9},
                   {"n": 5, "patterns": 1, "steps": 4, "draws": 5, "_weight": 9}], path_seconds=60)
def recall(ctx, n, patterns, steps, draws):
    """every step sets one node to the sign of its weighted input, keeps the others and never increases the energy"""
    P, net = trained(ctx, n, patterns)
    follow(ctx, net, hebbian(P), steps, draws)


def follow(ctx, net, w, steps, draws):
    n = len(w)
    start = [bipolar(ctx, "s%d" % i) for i in range(n)]
    ctx.first_draws(draws, [0.1, 0.7, 0.4, 0.99, 0.5])
    traj = ctx.ntm.evolve(initial_conditions=list(start), network=net.network, activity_rule=net.activity_rule, timesteps=steps + 1)
    ctx.check("number of states", len(traj) == steps + 1)
    before = start
    for t in range(1, steps + 1):
        after = [traj[t].activities[i] for i in range(n)]
        options = []
        for k in range(n):
            v = sum(w[k][j] * before[j] for j in range(n))
            options.append(ctx.both(after[k] == ctx.ite(v >= 0, 1, -1), *[after[i] == before[i] for i in range(n) if i != k]))
        ctx.check("one node takes the sign of its weighted input, the others stay", ctx.either(*options))
        ctx.check("the energy does not increase", energy(w, after) <= energy(w, before))
        before = after


@harness(quick=[{"n": 2, "steps": 3, "draws": 3}, {"n": 3, "steps": 4, "draws": 4}, {"n": 4, "steps": 2, "draws": 4}],
         thorough=[{"n": 4, "steps": 6, "draws": 6, "_weight": 9}, {"n": 5, "steps": 4, "draws": 5, "_weight": 9}], path_seconds=60)
def fixed_point(ctx, n, steps, draws):
    """a single trained pattern, and its negative, stay"""
    P, net = trained(ctx, n, 1)
    sign = bipolar(ctx, "sign")
    start = [sign * x for x in P[0]]
    ctx.first_draws(draws, [0.3, 0.9, 0.1, 0.6])
    traj = ctx.ntm.evolve(initial_conditions=list(start), network=net.network, activity_rule=net.activity_rule, timesteps=steps + 1)
    for s in traj:
        ctx.eq("the pattern is a fixed point", [s.activities[i] for i in range(n)], start)


LISTS = [[[1, 1, -1, -1], [1, -1, 1, -1], [1, 1, 1, 1]], [[1, -1, 1, 1, -1]] * 3 + [[-1, -1, 1, -1, 1], [1, 1, 1, -1, -1]],
         [[1, 1, 1, 1], [1, 1, 1, -1], [1, 1, -1, 1], [1, -1, -1, -1], [-1, 1, -1, 1]]]


@harness(quick=[{"which": k, "steps": 2} for k in range(len(LISTS))], thorough=[{"which": k, "steps": 5} for k in range(len(LISTS))])
def unequal_weights(ctx, which, steps):
    """weights of different sizes: given patterns, every start state"""
    net = ctx.ntm.HopfieldNet(n=len(LISTS[which][0]))
    net.train([list(p) for p in LISTS[which]])
    follow(ctx, net, hebbian(LISTS[which]), steps, 3)


@harness(quick=[{"n": 12, "patterns": 3, "steps": 14, "_weight": 3}, {"n": 7, "patterns": 5, "steps": 20, "_weight": 3}], thorough=[{"n": 25, "patterns": 4, "steps": 60, "_weight": 9}], path_seconds=60)
def larger(ctx, n, patterns, steps):
    """more nodes and timesteps: given patterns with an arbitrary place, arbitrary places of the start state"""
    ctx.first_draws(0, [0.1, 0.7, 0.4, 0.99, 0.5, 0.22, 0.83])
    P = [[1 if (i * i * (k + 2) + 3 * k + i) % 7 < 3 else -1 for i in range(n)] for k in range(patterns)]
    P[1][n // 2] = ctx.choice("p", [1, -1])
    net = ctx.ntm.HopfieldNet(n=n)
    net.train([list(p) for p in P])
    w = hebbian(P)
    ctx.eq("weights", [[net.adjacency_matrix[i][j] for j in range(n)] for i in range(n)], w)
    start = [ctx.choice("s%d" % i, [1, -1]) if i < 3 else P[0][i] if i % 3 else -P[0][i] for i in range(n)]
    traj = ctx.ntm.evolve(initial_conditions=list(start), network=net.network, activity_rule=net.activity_rule, timesteps=steps + 1)
    ctx.check("number of states", len(traj) == steps + 1)
    before = start
    for t in range(1, steps + 1):
        after = [traj[t].activities[i] for i in range(n)]
        options = []
        for k in range(n):
            v = sum(w[k][j] * before[j] for j in range(n))
            options.append(ctx.both(after[k] == ctx.ite(v >= 0, 1, -1), *[after[i] == before[i] for i in range(n) if i != k]))
        ctx.check("one node takes the sign of its weighted input, the others stay", ctx.either(*options))
        ctx.check("the energy does not increase", energy(w, after) <= energy(w, before))
        before = after


@harness(quick=[{"patterns": 140}], thorough=[{"patterns": 400}], path_seconds=60)
def many_patterns(ctx, patterns):
    """weights of more than 127: many equal patterns, some with an arbitrary place"""
    x = bipolar(ctx, "x")
    P = [[1, -1, 1] for _ in range(patterns)]
    P[3][1] = P[patterns - 1][2] = x
    net = ctx.ntm.HopfieldNet(n=3)
    net.train([list(p) for p in P])
    ctx.eq("weights", [[net.adjacency_matrix[i][j] for j in range(3)] for i in range(3)], hebbian(P))
    start = [bipolar(ctx, "s%d" % i) for i in range(3)]
    ctx.first_draws(0, [0.1, 0.7, 0.4])
    traj = ctx.ntm.evolve(initial_conditions=list(start), network=net.network, activity_rule=net.activity_rule, timesteps=4)
    w, before = hebbian(P), start
    for t in range(1, 4):
        after = [traj[t].activities[i] for i in range(3)]
        ctx.check("one node takes the sign of its weighted input, the others stay", ctx.either(*[
            ctx.both(after[k] == ctx.ite(sum(w[k][j] * before[j] for j in range(3)) >= 0, 1, -1), *[after[i] == before[i] for i in range(3) if i != k])
            for k in range(3)]))
        before = after


@harness(quick=[{"steps": 60}], thorough=[{"steps": 300}], path_seconds=60)
def long_runs(ctx, steps):
    """many timesteps of a small net with weights of one and two"""
    ctx.first_draws(0, [0.1, 0.7, 0.4, 0.99, 0.5])
    P = [[1, 1, -1, -1], [1, -1, 1, -1], [1, 1, 1, 1]]
    P[0][2] = ctx.choice("p", [1, -1])
    nets = [ctx.ntm.HopfieldNet(4), ctx.ntm.HopfieldNet(4)]
    nets[0].train([list(p) for p in P])
    nets[1].train([[1, -1, -1, 1]])   # another net
    net, w = nets[0], hebbian(P)
    before = [ctx.choice("s%d" % i, [1, -1]) for i in range(4)]
    for half in range(2):
        # and used again
        traj = ctx.ntm.evolve(initial_conditions=list(before), network=net.network, activity_rule=net.activity_rule, timesteps=steps // 2 + 1)
        for t in range(1, steps // 2 + 1):
            after = [traj[t].activities[i] for i in range(4)]
            changed = [i for i in range(4) if after[i] != before[i]]
            ctx.check("at most one node changes", len(changed) <= 1)
            ok = [k for k in range(4) if after[k] == (1 if sum(w[k][j] * before[j] for j in range(4)) >= 0 else -1)]
            ctx.check("to the sign of its weighted input", changed[0] in ok if changed else len(ok) > 0)
            before = after
        before = [-x for x in before]
