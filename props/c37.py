"""C37: the Hopfield-Tank network: distances, decoding of permutation matrices."""
from sx.harness import harness

BOUNDS = ("1 to 5 points with arbitrary real coordinates (distances through an uninterpreted square root for which sqrt(x)>=0 and sqrt(x)^2=x), "
          "every permutation of up to 5 points, exact and with arbitrary values above/below one half, and every non-permutation of up to 3 points, outputs that are arbitrary reals (2 and 3 points); the update rule for 2 and 3 "
          "points with an uninterpreted tanh, arbitrary parameters and activities; "
          "7 and 11 points (thorough: 15), one of them arbitrary; tours of 9 and 30 points (thorough: 50), one of them anywhere within a million.")

OUTSIDE = "whether a run settles into a permutation matrix (C44); rounding of floating point (sums are compared up to 1e-6)."

TOL = 1e-6


def net(ctx, points, **kw):
    return ctx.ntm.HopfieldTankTSPNet(points, **kw)


def dist(ctx, p, q):
    return ctx.math.sqrt((q[0] - p[0]) ** 2 + (q[1] - p[1]) ** 2)


FIXED = [(0, 0), (3, -4), (-1, 5), (2, 3), (10, -7), (0.5, 0.25), (6, 6)]


def arbitrary_points(ctx, n, free=2):
    """two arbitrary points (any two of them), the others fixed"""
    pts = list(FIXED[:n])
    where = ctx.choice("where", [(i, j) for i in range(n) for j in range(i + 1, n)]) if n > 1 else (0,)
    for i in where:
        pts[i] = (ctx.real("x%d" % i, -100, 100), ctx.real("y%d" % i, -100, 100))
    return pts


@harness(quick=[{"n": 1}, {"n": 2}, {"n": 4}, {"n": 5}], thorough=[{"n": 7}], math=True)
def distances(ctx, n):
    """one entry for every pair of points"""
    pts = arbitrary_points(ctx, n)
    got = net(ctx, pts).get_distances()
    pairs = [frozenset((int(a), int(b))) for a, b, _ in got]
    want = {frozenset((a, b)) for a in range(n) for b in range(a)}
    ctx.check("every pair once", len(pairs) == len(want) and set(pairs) == want)
    for a, b, d in got:
        sq = (pts[a][0] - pts[b][0]) ** 2 + (pts[a][1] - pts[b][1]) ** 2
        ctx.check("distances are not negative", d >= 0)
        ctx.near("the Euclidean distance", d, ctx.math.sqrt(sq), TOL)


def rounds(order):
    n = len(order)
    return {frozenset((order[i], order[(i + 1) % n])) for i in range(n)}


@harness(quick=[{"n": 1}, {"n": 2}, {"n": 3}, {"n": 4, "_weight": 4}], thorough=[{"n": 5, "_weight": 9}], math=True)
def tour(ctx, n):
    """the tour of every permutation matrix; entries are anything above one half for the position, anything below for the others"""
    import itertools
    order = ctx.choice("order", list(itertools.permutations(range(n))))
    pts = arbitrary_points(ctx, n)
    exact = ctx.flag("exact")
    m = [[0 if exact else 0.25 for _ in range(n)] for _ in range(n)]
    for k, i in enumerate(order):
        for j in range(n):
            if not exact and i == 0:
                m[i][j] = ctx.real("m%d" % j, 0, 0.5, open_hi=True)
        m[i][k] = 1 if exact else (ctx.real("p", 0.5, 1) if i == 0 else 0.75)
    G, pos, length = net(ctx, pts).get_tour_graph(pts, m)
    ctx.check("the points", sorted(G.nodes) == list(range(n)))
    ctx.check("the tour", {frozenset(e) for e in G.edges} == rounds(order))
    ctx.check("positions", set(pos) == set(range(n)))
    for i in range(n):
        ctx.near("the position of a point", list(pos[i]), list(pts[i]), 0)
    want = sum(dist(ctx, pts[order[i]], pts[order[(i + 1) % n]]) for i in range(n))
    ctx.near("the length of the tour", length, want, TOL)


@harness(quick=[{"n": 2}, {"n": 3, "_weight": 4}], thorough=[{"n": 4, "_weight": 9}])
def assigned_twice(ctx, n):
    """two points with the same position are rejected, one position each is accepted"""
    pts = [(3 * i, i * i) for i in range(n)]
    place = [int(ctx.int("place%d" % i, 0, n - 1)) for i in range(n)]
    m = [[1 if place[i] == j else 0 for j in range(n)] for i in range(n)]
    h = net(ctx, pts)
    if len(set(place)) < n:
        ctx.raises("a position twice", lambda: h.get_tour_graph(pts, m))
    else:
        G, _, _ = h.get_tour_graph(pts, m)
        ctx.check("a tour", G.number_of_nodes() == n)


@harness(quick=[{"n": 3}])
def wrong_shape(ctx, n):
    """a matrix that is not as large as the list of points is rejected"""
    pts = [(0, 0), (3, 4), (6, 8)]
    r, c = int(ctx.int("rows", 1, 4)), int(ctx.int("cols", 1, 4))
    m = [[1 if i == j else 0 for j in range(c)] for i in range(r)]
    h = net(ctx, pts)
    if (r, c) != (n, n):
        ctx.raises("wrong shape", lambda: h.get_tour_graph(pts, m))
    else:
        ctx.near("length", h.get_tour_graph(pts, m)[2], 20.0)


@harness(quick=[{"n": 2}, {"n": 3}], math=True)
def permutation_matrix(ctx, n):
    """the last activities, through the sigmoid, row by row"""
    pts = [(0, 0), (1, 5), (2, 3)][:n]
    u0 = 0.5
    h = net(ctx, pts, u_0=u0)
    acts = [[0.125 * (i - t) for i in range(n * n)] for t in range(2)]
    k = int(ctx.int("k", 0, n * n - 1))
    acts[1][k], acts[1][k - 1], acts[0][k] = ctx.real("a", -3, 3), ctx.real("b", -3, 3), ctx.real("c", -3, 3)
    got = h.get_permutation_matrix(acts)
    ctx.check("shape", len(got) == n and all(len(r) == n for r in got))
    for i in range(n):
        for j in range(n):
            ctx.near("the output of a node", got[i][j], (1 + ctx.math.tanh(acts[1][i * n + j] / u0)) / 2, TOL)


@harness(quick=[{"n": 2}, {"n": 3, "_weight": 4}])
def largest_output(ctx, n):
    """outputs that are not exact: the position of a point is the one with its largest output, however close the others are"""
    pts = [(3 * i, i * i) for i in range(n)]
    m = [[ctx.real("m%d_%d" % (i, j), 0, 1) if i < 2 else 0.5 if j == 0 else 0.25 for j in range(n)] for i in range(n)]
    place = []
    for row in m:
        big = [j for j in range(n) if all(bool(row[j] > row[k]) for k in range(n) if k != j)]
        ctx.assume(len(big) == 1)
        place.append(big[0])
    h = net(ctx, pts)
    if len(set(place)) < n:
        ctx.raises("a position twice", lambda: h.get_tour_graph(pts, m))
    else:
        order = [place.index(j) for j in range(n)]
        G, _, length = h.get_tour_graph(pts, m)
        ctx.check("the tour", {frozenset(e) for e in G.edges} == rounds(order))
        ctx.near("the length of the tour", length, sum(dist(ctx, pts[order[i]], pts[order[(i + 1) % n]]) for i in range(n)), TOL)


@harness(quick=[{"n": 7}, {"n": 11}], thorough=[{"n": 15}], math=True)
def larger(ctx, n):
    """more points: distances, and the tours of some permutations"""
    pts = [((7 * i * i + 3) % 23, (5 * i + i * i * i) % 19 - 9) for i in range(n)]
    pts[n - 2], pts[1] = (ctx.real("x", -100, 100), ctx.real("y", -100, 100)), (-0.0, 1e-3)
    h = net(ctx, pts)
    got = {frozenset((int(a), int(b))): d for a, b, d in h.get_distances()}
    ctx.check("every pair once", len(h.get_distances()) == len(got) == n * (n - 1) // 2)
    for i in range(n):
        for j in range(i):
            ctx.near("the Euclidean distance", got[frozenset((i, j))], dist(ctx, pts[i], pts[j]), TOL)
    k = ctx.choice("order", range(4))
    order = [list(range(n)), list(range(n))[::-1], [(i * 3 + 2) % n for i in range(n)], [i ^ 1 if i | 1 < n else i for i in range(n)]][k]
    order = order if len(set(order)) == n and max(order) < n else [(i * 2 + 1) % n for i in range(n)]
    m = [[0.7 if order[c] == r else 0.1 for c in range(n)] for r in range(n)]
    G, pos, length = h.get_tour_graph(pts, m)
    ctx.check("the points", sorted(G.nodes) == list(range(n)))
    ctx.check("the tour", {frozenset(e) for e in G.edges} == rounds(order))
    ctx.near("the length of the tour", length, sum(dist(ctx, pts[order[i]], pts[order[(i + 1) % n]]) for i in range(n)), TOL)


@harness(quick=[{"n": 9}, {"n": 30}], thorough=[{"n": 50}], math=True)
def many_points(ctx, n):
    """many points: a tour, its points and their positions; a position given twice"""
    pts = [((7 * i * i + 3) % 53, (5 * i + i * i * i) % 41 - 9) for i in range(n)]
    pts[n - 1] = (ctx.real("x", -1e6, 1e6), 2500)
    h = net(ctx, pts)
    order = list(range(n)) if ctx.flag("order") else [(i * 7 + 2) % n for i in range(n)]
    place = [order.index(i) for i in range(n)]
    if ctx.flag("twice"):
        place[ctx.choice("point", [0, n // 2, n - 1])] = place[3]
        m = [[1 if place[i] == j else 0 for j in range(n)] for i in range(n)]
        ctx.raises("a position twice", lambda: h.get_tour_graph(pts, m))
        return
    m = [[1 if place[i] == j else 0 for j in range(n)] for i in range(n)]
    G, pos, length = h.get_tour_graph(pts, m)
    ctx.check("the points", sorted(G.nodes) == list(range(n)) and set(pos) == set(range(n)))
    for i in range(n):
        ctx.near("the position of a point", list(pos[i]), list(pts[i]), 0)
    ctx.check("the tour", {frozenset(e) for e in G.edges} == rounds(order))
    ctx.near("the length of the tour", length, sum(dist(ctx, pts[order[i]], pts[order[(i + 1) % n]]) for i in range(n)), TOL)
