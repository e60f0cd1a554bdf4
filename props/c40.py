"""C40: initial conditions."""
from sx.harness import harness

BOUNDS = ("1 to 9 cells and grids up to 5x5 with arbitrary integer (or, with dtype float, real) centre value; random conditions of 0 to 6 cells "
          "with 1 to 4 (and up to 2**31) states, every number of randomized cells from -2 to size+2, an arbitrary empty value and every outcome of the draws; "
          "40 cells and grids of up to 440 (thorough: 300).")

OUTSIDE = "the distribution of the draws (C45); values that do not fit into the given dtype; sizes of zero for the conditions with a centre."


@harness(quick=[{"size": 9}], thorough=[{"size": 20}])
def simple(ctx, size):
    """all zero except the centre"""
    n = int(ctx.int("n", 1, size))
    real = ctx.flag("float")
    val = ctx.real("v", -5, 5) if real else ctx.int("v", -5, 5)
    given = ctx.flag("given")
    kw = {"dtype": float} if real else {}
    got = ctx.ntm.init_simple(n, val=val, **kw) if given else ctx.ntm.init_simple(n, **kw)
    ctx.check("a list of the given size", isinstance(got, list) and len(got) == n)
    ctx.near("all zero except the centre", got, [(val if given else 1) if i == n // 2 else 0 for i in range(n)], 0)
    ctx.check("zeroes of the type asked for", all(type(x) is (float if real else int) for i, x in enumerate(got) if i != n // 2))


@harness(quick=[{"rows": 5, "cols": 5}], thorough=[{"rows": 8, "cols": 8}])
def simple2d(ctx, rows, cols):
    """all zero except the centre of the grid"""
    r, c = int(ctx.int("r", 1, rows)), int(ctx.int("c", 1, cols))
    real = ctx.flag("float")
    val = ctx.real("v", -5, 5) if real else ctx.int("v", -5, 5)
    given = ctx.flag("given")
    kw = {"dtype": float} if real else {}
    got = ctx.ntm.init_simple2d(r, c, val=val, **kw) if given else ctx.ntm.init_simple2d(r, c, **kw)
    ctx.check("a list of the given size", isinstance(got, list) and len(got) == r * c)
    centre = (r // 2) * c + c // 2
    ctx.near("all zero except the centre", got, [(val if given else 1) if i == centre else 0 for i in range(r * c)], 0)
    ctx.check("zeroes of the type asked for", all(type(x) is (float if real else int) for i, x in enumerate(got) if i != centre))


@harness(quick=[{"size": 6, "k": 4}, {"size": 2, "k": 0}], thorough=[{"size": 9, "k": 6, "_weight": 9}])
def random(ctx, size, k):
    """the centred cells are the draws, in order, the others the empty value; a number out of range is rejected"""
    ntm = ctx.ntm
    n = int(ctx.int("n", 0, size))
    states = int(ctx.int("k", 1, k)) if k else ctx.choice("k", [10, 127, 128, 129, 256, 257, 40000, 70000, 2 ** 31])
    kw, m, empty, k2 = {}, n, 0, 2
    if ctx.flag("some"):
        m = kw["n_randomized"] = int(ctx.int("m", -2, n + 2))
    if ctx.flag("given"):
        empty = kw["empty_value"] = ctx.int("empty", -3, 9)
    if ctx.flag("states"):
        k2 = kw["k"] = states
    if not 0 <= m <= n:
        ctx.raises("the number of randomized cells is out of range", lambda: ntm.init_random(n, **kw))
        return
    got = ntm.init_random(n, **kw)
    ctx.check("a list of the given size", isinstance(got, list) and len(got) == n)
    left = (n - m) // 2
    ctx.eq("the other cells are empty", [x for i, x in enumerate(got) if not left <= i < left + m], [empty] * (n - m))
    ctx.all("the randomized cells are states", [c for x in got[left:left + m] for c in (x >= 0, x <= k2 - 1)])
    drawn = [d for d in ctx.draws]
    ctx.check("one draw for each randomized cell, among all the states", len(drawn) == m and all(d[1] == 0 and d[2] == k2 - 1 for d in drawn))
    ctx.eq("the randomized cells are the draws", got[left:left + m], [d[3] for d in drawn])


@harness(quick=[{"size": 4, "k": 3}], thorough=[{"size": 7, "k": 5}])
def random_real(ctx, size, k):
    """real states lie between zero and k - 1"""
    n = int(ctx.int("n", 0, size))
    m = int(ctx.int("m", 0, n))
    states = int(ctx.int("k", 1, k))
    empty = ctx.real("empty", -3, 9)
    got = ctx.ntm.init_random(n, k=states, n_randomized=m, empty_value=empty, dtype=float)
    left = (n - m) // 2
    ctx.check("a list of the given size", isinstance(got, list) and len(got) == n)
    ctx.near("the other cells are empty", [x for i, x in enumerate(got) if not left <= i < left + m], [empty] * (n - m), 0)
    ctx.all("between zero and k - 1", [c for x in got[left:left + m] for c in (x >= 0, x <= states - 1)])
    ctx.check("one draw for each randomized cell", len(ctx.draws) == m)


@harness(quick=[{"n": 40}], thorough=[{"n": 300}])
def larger(ctx, n):
    """more cells"""
    ntm = ctx.ntm
    v = ctx.int("v", -5, 5)
    size = n + ctx.choice("more", [0, 1])
    ctx.eq("all zero except the centre", ntm.init_simple(size, val=v), [v if i == size // 2 else 0 for i in range(size)])
    rows, cols = ctx.choice("dims", [(n, 3), (11, n), (12, 10), (1, n)])
    ctx.eq("all zero except the centre of the grid", ntm.init_simple2d(rows, cols, val=v), [v if i == (rows // 2) * cols + cols // 2 else 0 for i in range(rows * cols)])
    m = ctx.choice("randomized", [0, 1, n // 2, n - 1, size])
    ctx.first_draws(2, [0.1, 0.9, 0.35, 0.6])
    got = ntm.init_random(size, k=7, n_randomized=m, empty_value=v)
    left = (size - m) // 2
    ctx.eq("the other cells are empty", [x for i, x in enumerate(got) if not left <= i < left + m], [v] * (size - m))
    ctx.eq("the randomized cells are the draws", got[left:left + m], [d[3] for d in ctx.draws])
    ctx.check("a list of the given size", len(got) == size)
