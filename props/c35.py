"""C35: fungal growth."""
from sx.harness import harness
from .common import edges_of

BOUNDS = ("lattices of 1x3, 2x2, 2x3, 3x3 and 3x4 agents with up to 3 agents of arbitrary resource (the others have none), arbitrary absorption rate and "
          "resource layer at these agents, one to four steps of which up to 6 random draws are arbitrary (the later ones are fixed); arbitrary "
          "legal links before the step; arbitrary seeds; "
          "lattices of 3x2 and 3x3 for 40 and 60 steps (thorough: 4x4, 150 steps) with one arbitrary draw; "
          "lattices of 5x4 and 7x3 for 5 and 7 steps (thorough: 6x6, 12 steps) with one arbitrary resource.")

OUTSIDE = "lattices on which an agent is its own neighbour (width or height 1 beyond 1x3); more arbitrary draws per run."

TOL = 1e-6


def lattice_pairs(w, h):
    out = set()
    for y in range(h):
        for x in range(w):
            a = y * w + x
            for b in (y * w + (x + 1) % w, ((y + 1) % h) * w + x):
                if a != b:
                    out.add(frozenset((a, b)))
    return out


def alive(x):
    return bool(x > 0)


def check_step(ctx, model_args, links, degrees, before, after, draws):
    """one step: links before (set of pairs), resources before and after, and the network after"""
    w, h, rate, layer = model_args
    n = w * h
    acts, net, new = before, after[1], after[0]
    got = edges_of(net)
    pairs = set(got)
    legal = lattice_pairs(w, h)
    live = [alive(acts[i]) for i in range(n)]
    ctx.check("agents stay", set(net.nodes) == set(range(n)))
    ctx.check("every link is single", all(len(a) == 1 for a in got.values()))
    ctx.check("links stay", links <= pairs)
    ctx.check("links join lattice neighbours", all(frozenset(e) in legal for e in pairs if e not in links))
    ctx.check("links are unidirectional", not any((j, i) in pairs for i, j in pairs))
    ctx.check("new links start at living agents", all(live[i] for i, j in pairs - links))
    candidates = [p for p in legal if not any(tuple(q) in links for q in (list(p), list(p)[::-1]))]
    both = [p for p in candidates if all(live[i] for i in p)]
    one = [p for p in candidates if sum(live[i] for i in p) == 1]
    linked = {frozenset(e) for e in pairs - links}
    ctx.check("two living agents without a link get one", all(p in linked for p in both))
    ctx.check("one draw for every possible link", len(draws) == len(both) + len(one))
    rates = {degrees(i) for p in one for i in p if live[i]}
    if len(rates) == 1 and not both:
        (d,) = rates
        below = sum(bool(x < 1 / (4 - d)) for _, _, _, x in draws)
        ctx.check("a draw below 1/(4 - number of links) makes the link", len(linked) == below)
    outdeg = {i: sum(1 for e in pairs if e[0] == i) for i in range(n)}
    ctx.check("every agent shares its resource equally among its links",
              all(abs(got[e][0]["weight"] * outdeg[e[0]] - 1) < 1e-9 for e in pairs))
    total, want_total = 0, 0
    for i in range(n):
        sources = [a for a, b in pairs if b == i]
        want = sum((acts[a] / outdeg[a] for a in sources), 0) if sources else acts[i]
        if live[i] and layer[i]:
            want = want + rate * layer[i]
        ctx.near("resource of an agent", new[i], want, TOL)
        total = total + new[i]
        # an agent no link leads to keeps its resource; any other agent's resource leaves along its links
        keeps = (0 if sources else 1) + (1 if outdeg[i] else 0)
        want_total = want_total + acts[i] * keeps + (rate * layer[i] if live[i] else 0)
    ctx.near("total resource", total, want_total, 9 * TOL)


def run(ctx, w, h, init, layer, rate, steps, network=None, seed=None):
    ntm = ctx.ntm
    n = w * h
    model = ntm.FungalGrowthModel(rate, w, h, init, resource_layer=layer, seed=seed, verbose=False)
    start = network if network is not None else model.network
    links0 = {(i, j) for i, j, _ in start.edges}
    if network is None:
        ctx.check("no links at the start", not links0 and set(start.nodes) == set(range(n)))
    marks = []

    def topology_rule(c):
        a = len(ctx.draws)
        out = model.topology_rule(c)
        marks.append((a, len(ctx.draws)))
        return out
    traj = ntm.evolve(initial_conditions=init, network=start, topology_rule=topology_rule, activity_rule=model.activity_rule,
                      update_order=model.update_order, copy_network=model.copy_network, timesteps=steps + 1)
    ctx.check("number of states", len(traj) == steps + 1 and len(marks) == steps)
    lay = layer if layer else [1 if bool(x != 0) else 0 for x in init]
    links, before = links0, [traj[0].activities[i] for i in range(n)]
    ctx.eq("initial resource", before, list(init))
    for t in range(1, steps + 1):
        after = [traj[t].activities[i] for i in range(n)]

        def degrees(i, links=links):
            return sum(1 for e in links if i in e)
        check_step(ctx, (w, h, rate, lay), links, degrees, before, (after, traj[t].network), ctx.draws[marks[t - 1][0]:marks[t - 1][1]])
        links, before = {(i, j) for i, j, _ in traj[t].network.edges}, after


@harness(quick=[{"w": 3, "h": 3, "free": [4], "steps": 1, "draws": 4}, {"w": 3, "h": 3, "free": [0, 1], "steps": 1, "draws": 4, "_weight": 9},
                {"w": 2, "h": 2, "free": [0], "steps": 3, "draws": 4, "_weight": 5}, {"w": 1, "h": 3, "free": [0, 1], "steps": 2, "draws": 3, "_weight": 4},
                {"w": 2, "h": 3, "free": [0, 3], "steps": 1, "draws": 4, "_weight": 5}, {"w": 3, "h": 4, "free": [5], "steps": 2, "draws": 4, "_weight": 5}],
         thorough=[{"w": 3, "h": 3, "free": [0, 4, 8], "steps": 1, "draws": 6, "_weight": 9}, {"w": 2, "h": 2, "free": [0, 1, 2], "steps": 4, "draws": 5, "_weight": 9},
                   {"w": 3, "h": 4, "free": [0, 5], "steps": 3, "draws": 6, "_weight": 9}], path_seconds=60)
def growth(ctx, w, h, free, steps, draws):
    """arbitrary resource, rate and draws, from the network without links"""
    n = w * h
    init = [0] * n
    for i in free:
        init[i] = ctx.real("resource", 0, 1000)
    rate = ctx.real("rate", 0, 1000)
    layer = [0] * n
    if ctx.flag("given_layer"):
        for i in free:
            layer[i] = 1 if ctx.flag("layer") else 0
        layer[(free[0] + 1) % n] = 1
    else:
        layer = None
    ctx.first_draws(draws, [0.1, 0.9, 0.4, 0.6, 0.3])
    run(ctx, w, h, init, layer, rate, steps)


@harness(quick=[{"w": 2, "h": 2, "live": 2, "links": 4, "_weight": 5}, {"w": 3, "h": 3, "live": 1, "links": 4, "_weight": 5}],
         thorough=[{"w": 2, "h": 3, "live": 2, "links": 6, "_weight": 9}, {"w": 3, "h": 3, "live": 3, "links": 5, "_weight": 9}], path_seconds=60)
def any_links(ctx, w, h, live, links):
    """one step from arbitrary legal links"""
    n = w * h
    net = ctx.ntm.Network(n)
    pairs = sorted(sorted(p) for p in lattice_pairs(w, h))
    # the links around the last living agent, then others
    centre = n // 2
    pairs = sorted(pairs, key=lambda p: centre not in p)[:links]
    for a, b in pairs:
        k = ctx.choice("link", [0, 1, 2])
        if k:
            net.add_edge(*((a, b) if k == 1 else (b, a)), weight=0.125)
    init = [0] * n
    for i in ([centre] + [p[1] if p[0] == centre else p[0] for p in pairs])[:live]:
        init[i] = ctx.real("resource", 0, 10)
    ctx.first_draws(2, [0.9, 0.2])
    layer = [0] * n
    layer[centre] = 1
    run(ctx, w, h, init, layer, 2.5, 1, net)


@harness(quick=[{}])
def seeds(ctx):
    """the given seed, zero included, seeds the generator; no seed leaves it alone"""
    given = ctx.flag("given")
    seed = ctx.int("seed", 0, 2 ** 32 - 1) if given else None
    before = len(ctx.events)
    ctx.ntm.FungalGrowthModel(1.0, 2, 2, [1, 0, 0, 0], seed=seed, verbose=False)
    seeded = [e for e in ctx.events[before:] if e[0].endswith("seed")]
    ctx.check("seeded once, with the given seed", len(seeded) == (1 if given else 0))
    if given:
        ctx.eq("the seed", seeded[0][1][0] if isinstance(seeded[0][1], (list, tuple)) else seeded[0][1], seed)


@harness(quick=[{"n": 4}])
def layer_size(ctx, n):
    """a resource layer of the wrong size is rejected; the default layer lies at the agents with resource at the start"""
    k = ctx.int("k", 1, 2 * n)
    layer = [1] * int(k)
    if len(layer) != n:
        ctx.raises("wrong size", lambda: ctx.ntm.FungalGrowthModel(1.0, 2, n // 2, [1] + [0] * (n - 1), resource_layer=layer, verbose=False))
    else:
        ctx.ntm.FungalGrowthModel(1.0, 2, n // 2, [1] + [0] * (n - 1), resource_layer=layer, verbose=False)
        ctx.check("accepted", True)


@harness(quick=[{"w": 5, "h": 4, "steps": 7, "draws": 2}, {"w": 7, "h": 3, "steps": 5, "draws": 2}], thorough=[{"w": 6, "h": 6, "steps": 12, "draws": 4, "_weight": 9}], path_seconds=90)
def larger(ctx, w, h, steps, draws):
    """more agents and steps: an arbitrary resource in one of the places, fixed later draws"""
    n = w * h
    init = [0] * n
    init[n // 2], init[0], init[3] = 10, 2.5, 1
    free = ctx.choice("free", [n // 2, 0])
    init[free] = ctx.real("resource", 1, 100)
    layer = [1 if i * i % 7 == 2 else 0 for i in range(n)]
    ctx.first_draws(draws, [0.1, 0.9, 0.4, 0.6, 0.3, 0.75, 0.2])
    run(ctx, w, h, init, layer if ctx.flag("given_layer") else None, 1.5, steps)


@harness(quick=[{"w": 3, "h": 2, "steps": 40}, {"w": 3, "h": 3, "steps": 60}], thorough=[{"w": 4, "h": 4, "steps": 150, "_weight": 9}], path_seconds=120)
def long_runs(ctx, w, h, steps):
    """long runs with slow growth: fixed draws except one"""
    n = w * h
    init = [0] * n
    init[n // 2], init[0] = 10, 0.25
    late = ctx.flag("late")
    ctx.first_draws(1, [0.97, 0.99, 0.96, 0.98] * (62 if late else 1) + [0.1, 0.9, 0.6])
    layer = [1 if i % 3 == 0 else 0 for i in range(n)]
    run(ctx, w, h, init, layer, 0.125, steps)
