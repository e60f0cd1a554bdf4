"""C15: 1D automaton networks."""
from sx.harness import harness
from .common import UF, same_activities

BOUNDS = ("rings of 3 to 20 cells and every radius with 2r+1 <= n up to 4; on each, the edges, the weights and the rotation "
          "system of every cell, and two timesteps of an arbitrary function of the ordered neighbourhood on arbitrary "
          "activities; rings of 64, 101, 130 and 262 cells (thorough: up to 1001), radius up to 12 (30); unordered rings of up to 8 cells (thorough: 14) and every radius up to the number of cells.")

OUTSIDE = "the ordering in rings smaller than the neighbourhood; larger rings."


@harness(quick=[{"low": 3, "top": 9}, {"low": 10, "top": 14}, {"low": 15, "top": 20}], thorough=[{"low": 21, "top": 40}])
def rings(ctx, low, top):
    """ring distance at most r, ordered from left to right"""
    ntm = ctx.ntm
    n = int(ctx.int("n", low, top))
    r = ctx.choice("r", [r for r in range(1, 5) if 2 * r + 1 <= n])
    ordered = ctx.choice("ordered", ["default", True, False])
    net = ntm.topology.cellular_automaton(n, r) if ordered == "default" else ntm.topology.cellular_automaton(n=n, r=r, ordered=ordered)
    ctx.check("cells", sorted(net.nodes) == list(range(n)) and len(net) == n)
    seen = {}
    for i, j, a in net.edges:
        seen.setdefault((i, j), []).append(dict(a))
    dist = lambda i, j: min((i - j) % n, (j - i) % n)
    ctx.check("exactly the cells at distance at most r", set(seen) == {(i, j) for i in range(n) for j in range(n) if dist(i, j) <= r})
    ctx.check("one edge of weight 1", all(e == [{"weight": 1}] for e in seen.values()))
    if ordered is False:
        ctx.check("no rotation system", net.rotation_system is None)
        return
    rot = net.rotation_system
    ctx.check("rotation system", sorted(rot) == list(range(n)) and
              all(list(rot[i]) == [(i + d) % n for d in range(-r, r + 1)] for i in range(n)))


@harness(quick=[{"n": 3, "r": 1}, {"n": 8, "r": 1}, {"n": 5, "r": 2}, {"n": 9, "r": 3}, {"n": 12, "r": 2}],
         thorough=[{"n": 30, "r": 4}])
def evolved(ctx, n, r):
    """a rule sees the activities from r to the left to r to the right"""
    ntm = ctx.ntm
    f = ctx.fn("f", 2 * r + 1)
    s = ctx.ints("s", n)
    traj = ntm.evolve(network=ntm.topology.cellular_automaton(n, r), initial_conditions=list(s), timesteps=3,
                      activity_rule=lambda c: f(*c.neighbourhood_activities), memoize=False)
    for t in range(3):
        if t:
            s = [f(*[s[(i + d) % n] for d in range(-r, r + 1)]) for i in range(n)]
        same_activities(ctx, "activities", traj[t].activities, dict(enumerate(s)))


@harness(quick=[{"top": 12}], thorough=[{"top": 30}])
def matrix(ctx, top):
    """the adjacency matrix has ones exactly at ring distance at most r, 1 if not given"""
    build = ctx.ntm.topology.adjacency.cellular_automaton
    n = int(ctx.int("n", 3, top))
    r = ctx.choice("r", [None] + [r for r in range(1, 5) if 2 * r + 1 <= n])
    m = build(n) if r is None else build(n, r)
    r = r or 1
    ctx.check("square", len(m) == n and all(len(row) == n for row in m))
    i, j = int(ctx.int("i", 0, n - 1)), ctx.int("j", 0, n - 1)
    want = lambda j: 1 if min((i - j) % n, (j - i) % n) <= r else 0
    ctx.all("one exactly within the radius", [ctx.implies(j == x, m[i][x] == want(x)) for x in range(n)])


@harness(quick=[{"sizes": ((101, 1), (64, 7), (130, 12))}, {"sizes": ((262, 2),)}], thorough=[{"sizes": ((520, 1), (300, 30), (1001, 1))}], path_seconds=60)
def large(ctx, sizes):
    """long rings and wide neighbourhoods"""
    ntm = ctx.ntm
    n, r = ctx.choice("size", sizes)
    net = ntm.topology.cellular_automaton(n=n, r=r)
    want = {(i, (i + d) % n) for i in range(n) for d in range(-r, r + 1)}
    es = list(net.edges)
    ctx.check("exactly the cells at distance at most r", len(es) == len(want) and {(i, j) for i, j, a in es} == want)
    ctx.check("weights", all(dict(a) == {"weight": 1} for i, j, a in es))
    rot = net.rotation_system
    ctx.check("rotation system", len(rot) == n and all(list(rot[i]) == [(i + d) % n for d in range(-r, r + 1)] for i in range(n)))
    a = ctx.ints("a", 3)
    s = list(range(n))
    for q in range(3):
        s[(n - 2 + q) % n] = a[q]
    traj = ntm.evolve(network=net, initial_conditions=list(s), timesteps=2,
                      activity_rule=lambda c: (c.neighbourhood_activities[0], c.neighbourhood_activities[-1], c.current_activity))
    ctx.eq("the outermost cells and the centre", [traj[1].activities[i] for i in (0, 1, n // 2, n - 2, n - 1)],
           [(s[(i - r) % n], s[(i + r) % n], s[i]) for i in (0, 1, n // 2, n - 2, n - 1)])


@harness(quick=[{"top": 8}], thorough=[{"top": 14}])
def all_round(ctx, top):
    """radii of half the ring and more, without an ordering: still exactly the cells at distance at most r"""
    n = int(ctx.int("n", 3, top))
    r = ctx.choice("r", range(1, n + 1))
    want = {(i, j) for i in range(n) for j in range(n) if min((i - j) % n, (j - i) % n) <= r}
    m = ctx.ntm.topology.adjacency.cellular_automaton(n, r)
    i, j = int(ctx.int("i", 0, n - 1)), ctx.int("j", 0, n - 1)
    ctx.all("one exactly within the radius", [ctx.implies(j == x, m[i][x] == (1 if (i, x) in want else 0)) for x in range(n)])
    net = ctx.ntm.topology.cellular_automaton(n, r, ordered=False)
    es = list(net.edges)
    ctx.check("exactly the cells at distance at most r", len(es) == len(want) and {e[:2] for e in es} == want)
    ctx.check("weights", all(dict(e[2]) == {"weight": 1} for e in es))
