"""C13: adjacency matrices."""
from sx.harness import harness
from .common import edges_of, large_graph

BOUNDS = ("matrices of 1 to 3 rows with arbitrary integer (zero, negative) entries and 2 rows with arbitrary real entries, as "
          "lists or arrays; networks of 2 nodes with up to 2 parallel edges per direction and 3 nodes with every subset of edges, "
          "arbitrary weights, some without the weight attribute, other attribute names, every node order, summing or not; "
          "a multigraph and a matrix of 11 nodes (thorough: 30).")

OUTSIDE = "non-square matrices; node orders that are not a permutation of the nodes."


@harness(quick=[{"n": 1, "kind": "int"}, {"n": 2, "kind": "int"}, {"n": 2, "kind": "real"}, {"n": 3, "kind": "int", "_weight": 3}])
def from_matrix(ctx, n, kind):
    """one edge per non-zero entry, and back"""
    ntm = ctx.ntm
    M = [[ctx.int("m%d%d" % (i, j)) if kind == "int" else ctx.real("m%d%d" % (i, j)) for j in range(n)] for i in range(n)]
    given = [list(r) for r in M]
    net = ntm.topology.from_adjacency_matrix(given)
    ctx.check("nodes", len(net) == n and sorted(net.nodes) == list(range(n)))
    es = edges_of(net)
    for i in range(n):
        for j in range(n):
            if (i, j) in es:
                ctx.check("edges are the non-zero entries", ctx.neg(M[i][j] == 0))
                ctx.check("one edge per entry", len(es[(i, j)]) == 1)
                ctx.eq("weight", es[(i, j)][0]["weight"], M[i][j])
            else:
                ctx.check("edges are the non-zero entries", M[i][j] == 0)
            ctx.check("has_edge", net.has_edge(i, j) == ((i, j) in es))
    ctx.eq("the matrix is not modified", given, M)
    ctx.eq("and back", net.to_adjacency_matrix(nodelist=list(range(n))), M)
    ctx.eq("and back, not summing", net.to_adjacency_matrix(nodelist=list(range(n)), sum_multiedges=False), M)
    order = list(net.nodes)
    ctx.eq("in the order of the nodes", net.to_adjacency_matrix(), [[M[i][j] for j in order] for i in order])


@harness(quick=[{"n": 2, "multi": 2}, {"n": 3, "multi": 1, "_weight": 3}], thorough=[{"n": 2, "multi": 3, "_weight": 9}])
def to_matrix(ctx, n, multi):
    """row i, column j: the sum of the weights of the parallel edges, or one of them"""
    ntm = ctx.ntm
    labels = ["b", "a", "c"][:n]
    net = ntm.Network()
    for l in labels:
        net.add_node(l)
    ws = {}
    for i in range(n):
        for j in range(n):
            for k in range(ctx.choice("e%d%d" % (i, j), range(multi + 1))):
                # the first edge of a node to itself has no weight attribute
                w = None if i == j and k == 0 else ctx.int("w%d%d" % (i, j))
                net.add_edge(labels[i], labels[j], **({} if w is None else {"weight": w, "other": 2 * w}))
                ws.setdefault((i, j), []).append(w)
    order = ctx.choice("order", [None, list(range(n)), list(range(n))[::-1]] + ([[1, 2, 0]] if n == 3 else []))
    how = ctx.choice("how", ["default", "sum", "one", "other"] if n == 2 else ["default", "one"])
    kw = {"default": {}, "sum": {"sum_multiedges": True, "weight": "weight"}, "one": {"sum_multiedges": False},
          "other": {"weight": "other"}}[how]
    nodelist = None if order is None else [labels[i] for i in order]
    M = net.to_adjacency_matrix(nodelist=nodelist, **kw)
    ctx.check("size", len(M) == n and all(len(r) == n for r in M))
    for r, i in enumerate(order or range(n)):
        for c, j in enumerate(order or range(n)):
            es = [1 if w is None else (2 * w if how == "other" else w) for w in ws.get((i, j), [])]
            if how == "one":
                ctx.check("one of the weights", ctx.either(*([M[r][c] == x for x in es] if es else [M[r][c] == 0])))
            else:
                ctx.eq("the sum of the weights", M[r][c], sum(es, 0))


@harness(quick=[{"n": 11}], thorough=[{"n": 30}])
def larger(ctx, n):
    """larger networks and matrices"""
    net, labels, es = large_graph(ctx, n, "weight")
    names = ctx.choice("order", [None, labels, labels[::-1], sorted(labels, key=str)])
    one = ctx.flag("one")
    M = net.to_adjacency_matrix(nodelist=names, sum_multiedges=not one)
    at = {x: i for i, x in enumerate(labels)}
    rows = [at[x] for x in (names or net.nodes)]
    ctx.check("size", len(M) == n and all(len(r) == n for r in M))
    for r, i in enumerate(rows):
        for c, j in enumerate(rows):
            ws = [a["weight"] for a in es.get((i, j), [])]
            if one:
                ctx.check("one of the weights", ctx.either(*([M[r][c] == x for x in ws] if ws else [M[r][c] == 0])))
            else:
                ctx.eq("the sum of the weights", M[r][c], sum(ws, 0))
    given = [[(i * i + 3 * j) % 4 * ((i + j) % 3) for j in range(n)] for i in range(n)]
    given[2][n - 1], given[n - 1][n - 1] = ctx.int("m1"), ctx.int("m2")
    again = ctx.ntm.topology.from_adjacency_matrix([list(r) for r in given])
    got = edges_of(again)
    ctx.check("nodes", sorted(again.nodes) == list(range(n)))
    for i in range(n):
        for j in range(n):
            e = got.get((i, j), [])
            ctx.eq("one edge per non-zero entry, with its weight", [a["weight"] for a in e] or [0], [given[i][j]])
