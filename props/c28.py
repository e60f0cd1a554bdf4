"""C28: sandpile."""
from sx.harness import harness
from .common import same_activities

BOUNDS = ("tori of 3x3, 3x4, 4x3 (thorough: up to 5x5) with an arbitrary number of grains in every cell, open and closed boundaries, one step; "
          "3x3 also two steps; single additional cells of larger grids through the rule itself; "
          "3 and 5 timesteps of piles of 3x11 and 6x5 with one or two arbitrary places (thorough: 8 of 8x11).")

OUTSIDE = "tori with a side below 3 (a cell is then its own neighbour more than once); negative numbers of grains; more steps."


def step(ctx, s, rows, cols, closed):
    at = lambda i, j: s[(i % rows) * cols + j % cols]
    tops = lambda x: ctx.ite(x >= 4, 1, 0)
    out = {}
    for i in range(rows):
        for j in range(cols):
            x = at(i, j)
            v = x - ctx.ite(x >= 4, 4, 0)
            for di, dj in ((-1, 0), (1, 0), (0, -1), (0, 1)):
                v = v + tops(at(i + di, j + dj))
            edge = i in (0, rows - 1) or j in (0, cols - 1)
            out[i * cols + j] = 0 if closed and edge else v
    return out


def run(ctx, rows, cols, closed, s, steps):
    ntm = ctx.ntm
    pile = ntm.Sandpile(rows, cols, is_closed_boundary=closed) if not closed or ctx.flag("explicit") else ntm.Sandpile(rows, cols)
    traj = ntm.evolve(network=pile.network, initial_conditions=dict(s), timesteps=steps + 1, activity_rule=pile.activity_rule)
    total = sum(s.values())
    for t in range(1, steps + 1):
        s = step(ctx, s, rows, cols, closed)
        got = traj[t].activities
        same_activities(ctx, "four grains topple to four neighbours", got, s)
        now = sum(got.values())
        if not closed:
            ctx.eq("grains are conserved", now, total)
        else:
            ctx.check("closed boundaries absorb grains", now <= total)
        ctx.all("no negative number of grains", [x >= 0 for x in got.values()])
        total = now


@harness(quick=[{"rows": 3, "cols": 3, "closed": c, "k": 4, "_weight": 5} for c in (True, False)] +
         [{"rows": 3, "cols": 4, "closed": c, "k": 2, "_weight": 5} for c in (True, False)] +
         [{"rows": 4, "cols": 3, "closed": c, "k": 2, "_weight": 5} for c in (True, False)] +
         [{"rows": 4, "cols": 4, "closed": True, "k": 4, "_weight": 9}],
         thorough=[{"rows": 3, "cols": 3, "closed": c, "k": 9, "_weight": 9} for c in (True, False)] +
         [{"rows": 5, "cols": 5, "closed": c, "k": 4, "_weight": 9} for c in (True, False)], path_seconds=60)
def one_step(ctx, rows, cols, closed, k):
    """k cells at a time around every place are arbitrary, the others have one of a few fixed numbers"""
    n = rows * cols
    first = ctx.choice("first", range(n))
    i, j = divmod(first, cols)
    free = [i * cols + j, ((i + 1) % rows) * cols + j, i * cols + (j + 1) % cols, ((i - 1) % rows) * cols + j][:k]
    free += [x for x in range(n) if x not in free][:k - len(free)]
    fixed = [0, 3, 4, 5, 7, 1, 8]
    s = {x: ctx.int("g%d" % x, 0) if x in free else fixed[x * 3 % 7] for x in range(n)}
    run(ctx, rows, cols, closed, s, 1)


@harness(quick=[{"closed": c, "_weight": 9} for c in (True, False)])
def all_arbitrary(ctx, closed):
    """every cell of a 3x3 torus arbitrary"""
    s = {x: ctx.int("g%d" % x, 0) for x in range(9)}
    run(ctx, 3, 3, closed, s, 1)


@harness(quick=[{"closed": c, "k": 2} for c in (True, False)], thorough=[{"closed": c, "k": 4, "_weight": 9} for c in (True, False)])
def two_steps(ctx, closed, k):
    """avalanches"""
    fixed = [3, 3, 4, 3, 7, 3, 0, 3, 3]
    s = {x: ctx.int("g%d" % x, 0) if x in (4, 1, 0, 8)[:k] else fixed[x] for x in range(9)}
    run(ctx, 3, 3, closed, s, 2)


@harness(quick=[{"rows": 6, "cols": 5, "closed": c, "k": 1, "steps": 5, "_weight": 4} for c in (True, False)] +
         [{"rows": 3, "cols": 11, "closed": c, "k": 2, "steps": 3, "_weight": 4} for c in (True, False)],
         thorough=[{"rows": 8, "cols": 11, "closed": c, "k": 2, "steps": 8, "_weight": 9} for c in (True, False)], path_seconds=60)
def avalanches(ctx, rows, cols, closed, k, steps):
    """several timesteps of larger piles with an arbitrary number of grains in one place or two"""
    fixed = [3, 3, 4, 2, 3, 5, 0, 3, 1, 3, 6]
    free = [(rows // 2) * cols + cols // 2, cols + 1][:k]
    s = {x: ctx.int("g%d" % x, 0) if x in free else fixed[(x * 7 + x // cols) % 11] for x in range(rows * cols)}
    run(ctx, rows, cols, closed, s, steps)
