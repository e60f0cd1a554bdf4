"""C17: the other network builders."""
import itertools
import random
from sx.harness import harness

BOUNDS = ("complete graphs of 1 to 9 nodes; bipartite graphs of sets of 1 to 3 nodes each with arbitrary attributes per edge (and "
          "none), integer and string labels; disconnected networks given by number or labels; lattices of one, two and three "
          "dimensions of sides 1 to 5, periodic or not, with and without self-loops, arbitrary first label in -3..9; Watts-Strogatz graphs of 4 and 5 nodes with 2 to 4 neighbours, an arbitrary probability "
          "and arbitrary draws (up to 4 of new neighbours), rings of 3 to 9 nodes and their complete graphs; lattices of four and five dimensions; up to 40 nodes (thorough: 120) in "
          "complete and bipartite graphs, 360 without edges, small worlds of 20 and 60 nodes with an arbitrary draw (thorough: 150), 150 in lattices.")

OUTSIDE = "the distribution of Watts-Strogatz graphs (C45), more redraws, fewer than two neighbours; periodic lattices with a side of length one."


def edges(net):
    out = {}
    for i, j, a in net.edges:
        out.setdefault((i, j), []).append(dict(a))
    return out


@harness(quick=[{"top": 9}], thorough=[{"top": 25}])
def complete(ctx, top):
    """both directions between every two distinct nodes"""
    n = int(ctx.int("n", 1, top))
    net = ctx.ntm.topology.complete(n)
    es = edges(net)
    ctx.check("nodes", sorted(net.nodes) == list(range(n)))
    ctx.check("edges", set(es) == set(itertools.permutations(range(n), 2)) and all(len(e) == 1 for e in es.values()))
    i, j = ctx.int("i", 0, n - 1), ctx.int("j", 0, n - 1)
    ctx.check("edge test", net.has_edge(i, j) == (not (i == j)))


@harness(quick=[{}])
def bipartite(ctx):
    """every node of the first with every node of the second set, both ways"""
    a, b = ctx.choice("sets", [([], [1, 0]), (["x"], []), ([], []), ([0], [1]), ([0, 1], [2, 3, 4]), (["x", "y", "z"], ["u"]), ([5, 3], [4, "v"]), ([2, 1, 0], [9, 8, 7])])
    attrs = None
    if ctx.flag("attributes"):
        attrs = {i: {j: ({"weight": ctx.int("w"), "x": ctx.int("x")} if (i, j) != (a[0], b[-1]) else {}) for j in b} for i in a}  # one edge without any
    if attrs and len(a) > 1 and len(b) > 1:
        attrs[a[1]][b[0]] = {"label": "x"}  # and one with another attribute only
    before = {i: {j: dict(x) for j, x in d.items()} for i, d in attrs.items()} if attrs else attrs
    net = ctx.ntm.topology.bipartite(a, b, attrs) if attrs is not None else ctx.ntm.topology.bipartite(a, b)
    es = edges(net)
    ctx.check("nodes", len(net) == len(a) + len(b) and set(net.nodes) == set(a) | set(b))
    ctx.check("edges", set(es) == {e for i in a for j in b for e in ((i, j), (j, i))} and all(len(e) == 1 for e in es.values()))
    ctx.eq("attributes", [es[e][0] for i in a for j in b for e in ((i, j), (j, i))],
           [before[i][j] if attrs else {} for i in a for j in b for _ in range(2)])
    ctx.eq("the given attributes are as before", attrs, before)


@harness(quick=[{}])
def disconnected(ctx):
    """exactly the given nodes and no edges"""
    given = ctx.choice("given", [0, 1, 2, 7, [], ["a"], [3, 1, 2], ["x", 5, (1, 2)]])
    net = ctx.ntm.topology.disconnected(given)
    want = list(range(given)) if isinstance(given, int) else given
    ctx.check("nodes", len(net) == len(want) and set(net.nodes) == set(want))
    ctx.check("no edges", list(net.edges) == [])
    if want:
        net.add_edge(want[0], want[-1], w=ctx.int("w"))
        ctx.check("edges can be added", len(list(net.edges)) == 1 and net.degree(want[0]) == (2 if len(want) == 1 else 1))


@harness(quick=[{"d": 1}, {"d": 2}, {"d": 3}], thorough=[{"d": 3, "top": 4}])
def lattice(ctx, d, top=None):
    """grid neighbours in both directions, consecutive labels"""
    sides = {1: [(1,), (2,), (3,), (5,)], 2: [(2, 2), (3, 4), (4, 3), (1, 4), (5, 2), (1, 1)], 3: [(2, 3, 4), (3, 3, 3), (1, 2, 2), (1, 1, 1)]}[d]
    dim = ctx.choice("dim", sides if top is None else list(itertools.product(range(2, top + 1), repeat=3)))
    periodic, loops = ctx.flag("periodic"), ctx.flag("self_loops")
    ctx.assume(not (periodic and 1 in dim))
    first = int(ctx.int("first", -3, 9)) if ctx.flag("first_given") else None
    kw = {} if first is None else {"first_label": first}
    if loops:
        kw["self_loops"] = True
    if periodic:
        kw["periodic"] = True
    net = ctx.ntm.topology.lattice(dim=dim, **kw)
    first = 0 if first is None else first
    es = edges(net)

    def label(p):
        k, f = first, 1
        for x, n in zip(p, dim):
            k, f = k + x * f, f * n
        return k
    points = list(itertools.product(*[range(n) for n in dim]))
    want = set()
    for p in points:
        for ax in range(d):
            q = list(p)
            q[ax] += 1
            if q[ax] == dim[ax]:
                if not periodic:
                    continue
                q[ax] = 0
            if tuple(q) != p:
                want |= {(label(p), label(q)), (label(q), label(p))}
        if loops:
            want.add((label(p), label(p)))
    ctx.check("consecutive labels", sorted(net.nodes) == list(range(first, first + len(points))))
    ctx.check("exactly the grid neighbours", set(es) == want)
    ctx.check("one edge each", all(len(e) == 1 for e in es.values()))


class Draws(random.Random):
    """a random number generator whose draws are arbitrary"""

    def __init__(self, ctx, most):
        super().__init__(0)
        self.ctx, self.most, self.reals, self.choices = ctx, most, [], 0

    def random(self):
        self.reals.append(self.ctx.real("draw%d" % len(self.reals)))
        self.ctx.assume((0 <= self.reals[-1]) & (self.reals[-1] < 1))
        return self.reals[-1]

    def choice(self, seq):
        self.choices += 1
        self.ctx.assume(self.choices <= self.most)
        return seq[int(self.ctx.int("pick%d" % self.choices, 0, len(seq) - 1))]


@harness(quick=[{"n": 4, "k": 2}, {"n": 5, "k": 3}, {"n": 5, "k": 4, "most": 3}], thorough=[{"n": 6, "k": 2, "most": 5}, {"n": 6, "k": 4, "most": 4}, {"n": 5, "k": 2, "most": 6}])
def watts_strogatz(ctx, n, k, most=4):
    """for all draws: as many edges as the ring lattice, both ways, no loops, only as many rewired as were drawn to be"""
    p = ctx.real("p")
    ctx.assume((0 <= p) & (p <= 1))
    draws = Draws(ctx, most)
    net = ctx.ntm.topology.watts_strogatz_graph(n=n, k=k, p=p, seed=draws)
    es = edges(net)
    ring = {(i, (i + d) % n) for i in range(n) for d in range(1, k // 2 + 1)}
    ctx.check("nodes", sorted(net.nodes) == list(range(n)))
    ctx.check("as many edges as the ring lattice", len(es) == 2 * len(ring))
    ctx.check("both ways, no loops", all(i != j and (j, i) in es for i, j in es))
    ctx.check("one edge of weight 1 each", all(a == [{"weight": 1}] for a in es.values()))
    rewired = len([e for e in ring if e not in es])
    ctx.check("only what is drawn is rewired", ctx.implies(p == 0, rewired == 0))
    ctx.check("not more than drawn", rewired <= len([d for d in draws.reals if d < p]))


@harness(quick=[{}])
def watts_strogatz_ends(ctx):
    """p=0 is the ring lattice, k=n the complete graph, a seed gives one network"""
    n = int(ctx.int("n", 3, 9))
    k = int(ctx.int("k", 2, 9))
    ctx.assume((2 <= k) & (k <= n))
    build = ctx.ntm.topology.watts_strogatz_graph
    ring = {(i, (i + d) % n) for i in range(n) for d in range(1, k // 2 + 1)}
    if k == n:
        ring = set(itertools.combinations(range(n), 2))
    net = build(n, k, 0)
    ctx.check("the ring lattice", set(edges(net)) == ring | {(j, i) for i, j in ring} and sorted(net.nodes) == list(range(n)))
    seed = ctx.choice("seed", [0, 1, 7, 12345])
    a, b = build(n, k, 0.5, seed), build(n=n, k=k, p=0.5, seed=seed)
    ctx.check("one network of a seed", edges(a) == edges(b) and list(a.nodes) == list(b.nodes))


@harness(quick=[{"n": 17}, {"n": 40}], thorough=[{"n": 120}], path_seconds=60)
def large(ctx, n):
    """many nodes: complete graphs, bipartite graphs, nodes without edges, lattices"""
    topology = ctx.ntm.topology
    what = ctx.choice("what", ["complete", "bipartite", "disconnected", "lattice"])
    if what == "complete":
        es = edges(topology.complete(n))
        ctx.check("edges", set(es) == set(itertools.permutations(range(n), 2)) and all(e == [{"weight": 1}] for e in es.values()))
    elif what == "bipartite":
        a, b = ["n%d" % k for k in range(n)], list(range(n // 2, 0, -1))
        w = ctx.int("w")
        attrs = {i: {j: {"weight": w + k, "label": "%s-%d" % (i, j), "k": k * j} for j in b} for k, i in enumerate(a)}
        before = {i: {j: dict(x) for j, x in d.items()} for i, d in attrs.items()}
        net = topology.bipartite(a, b, attrs)
        es = edges(net)
        ctx.check("edges", set(es) == {e for i in a for j in b for e in ((i, j), (j, i))} and all(len(e) == 1 for e in es.values()))
        ctx.eq("attributes", [es[e][0] for i in a for j in b for e in ((i, j), (j, i))], [before[i][j] for i in a for j in b for _ in range(2)])
        ctx.eq("the given attributes are as before", attrs, before)
    elif what == "disconnected":
        given = ctx.choice("given", [range, lambda m: list(range(m, 0, -1)), lambda m: ["n%d" % k for k in range(m)]])(9 * n)
        net = topology.disconnected(len(given) if isinstance(given, range) else given)
        ctx.check("nodes in the given order", list(net.nodes) == list(given) and not list(net.edges))
    else:
        periodic = ctx.flag("periodic")
        net = topology.lattice((n // 4, 5, 3), periodic=periodic, first_label=1)
        x = net_lattice((n // 4, 5, 3), periodic)
        es = edges(net)
        ctx.check("edges", set(es) == {(i + 1, j + 1) for i, j in x} and all(len(e) == 1 for e in es.values()))


def net_lattice(dim, periodic):
    points = {p: k for k, p in enumerate(itertools.product(*[range(n) for n in reversed(dim)]))}
    out = set()
    for p in points:
        for ax in range(len(dim)):
            q = list(p)
            q[ax] += 1
            if q[ax] == dim[len(dim) - 1 - ax]:
                if not periodic:
                    continue
                q[ax] = 0
            if tuple(q) != p:
                out |= {(points[p], points[tuple(q)]), (points[tuple(q)], points[p])}
    return out


@harness(quick=[{}])
def more_dimensions(ctx):
    """lattices of four and five dimensions"""
    dim = ctx.choice("dim", [(2, 3, 2, 4), (3, 3, 3, 3), (4, 2, 3, 2, 2)])
    periodic = ctx.flag("periodic")
    net = ctx.ntm.topology.lattice(dim=dim, periodic=periodic)
    es = edges(net)
    ctx.check("exactly the grid neighbours", set(es) == net_lattice(dim, periodic) and all(len(e) == 1 for e in es.values()))


@harness(quick=[{"n": 20, "k": 4}, {"n": 60, "k": 6}], thorough=[{"n": 150, "k": 10}], path_seconds=60)
def large_watts_strogatz(ctx, n, k):
    """many nodes, fixed draws around an arbitrary one"""
    class Some(Draws):
        def random(self):
            i = len(self.reals)
            if i == where:
                return super().random()
            self.reals.append((i * i * 37 % 101) / 101)
            return self.reals[-1]

        def choice(self, seq):
            self.choices += 1
            return seq[self.choices * 7 % len(seq)]
    where = ctx.choice("where", [0, n // 2, n * (k // 2) - 1])
    p = ctx.choice("p", [0, 0.25, 1])
    draws = Some(ctx, 1)
    es = edges(ctx.ntm.topology.watts_strogatz_graph(n=n, k=k, p=p, seed=draws))
    ring = {(i, (i + d) % n) for i in range(n) for d in range(1, k // 2 + 1)}
    ctx.check("as many edges as the ring lattice", len(es) == 2 * len(ring))
    ctx.check("both ways, no loops", all(i != j and (j, i) in es for i, j in es) and {i for e in es for i in e} <= set(range(n)))
    ctx.check("one edge of weight 1 each", all(a == [{"weight": 1}] for a in es.values()))
    rewired = len([e for e in ring if e not in es])
    ctx.check("not more rewired than drawn", rewired <= len([d for d in draws.reals if d < p]))
