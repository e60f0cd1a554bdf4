"""C20: Game of Life and Wireworld."""
from sx.harness import harness
from .c18 import node_context
from .common import same_activities

BOUNDS = ("Life: every live/dead pattern of a cell and 2 to 12 neighbours, in every position of the cell among up to 9; Wireworld: "
          "every state of a cell and 0 to 8 neighbours; one to two steps on tori of 3x3 to 5x5 with up to 10 arbitrary cells; "
          "5 and 8 timesteps on tori of 11x3 and 6x7 with some arbitrary cells (thorough: 20 on 12x11); neighbourhoods of 25 and 49 cells "
          "four of which are arbitrary; cells as booleans, floats and numpy scalars.")

OUTSIDE = "cell states other than the ones of the automaton; neighbourhoods that do not contain the cell (Life)."


@harness(quick=[{"m": m} for m in (2, 3, 4, 6, 8, 12)])
def life(ctx, m):
    """survive with two or three live neighbours, be born with three"""
    cells = ctx.ints("c", m + 1, 0, 1)
    centre = ctx.choice("centre", sorted({0, m // 2, m}))
    new = ctx.ntm.rules.game_of_life_rule(node_context(ctx, list(cells), cells[centre]))
    live = sum(c for k, c in enumerate(cells) if k != centre)
    alive = ctx.either(live == 3, ctx.both(cells[centre] == 1, live == 2))
    ctx.eq("next state", new, ctx.ite(alive, 1, 0))


@harness(quick=[{"m": m} for m in (0, 1, 2, 4, 8)])
def wireworld(ctx, m):
    """empty, head, tail, conductor"""
    cells = ctx.ints("c", m + 1, 0, 3)
    new = ctx.ntm.rules.wireworld_rule(node_context(ctx, list(cells), cells[m // 2]))
    me = cells[m // 2]
    heads = sum(ctx.ite(c == 1, 1, 0) for k, c in enumerate(cells) if k != m // 2)
    fire = ctx.either(heads == 1, heads == 2)
    ctx.eq("next state", new, ctx.ite(me == 0, 0, ctx.ite(me == 1, 2, ctx.ite(me == 2, 3, ctx.ite(fire, 1, 3)))))


def torus(ctx, rows, cols, s, rule):
    out = []
    for a in range(rows):
        for b in range(cols):
            out.append(rule(s[a * cols + b], [s[(a + x) % rows * cols + (b + y) % cols] for x in (-1, 0, 1) for y in (-1, 0, 1)
                                              if (x, y) != (0, 0)]))
    return out


@harness(quick=[{"rows": 3, "cols": 3, "free": 6, "steps": 2, "_weight": 2}, {"rows": 4, "cols": 4, "free": 4, "steps": 2, "_weight": 2},
                {"rows": 4, "cols": 5, "free": 3, "steps": 3, "_weight": 3}],
         thorough=[{"rows": 3, "cols": 4, "free": 8, "steps": 2, "_weight": 9}, {"rows": 5, "cols": 5, "free": 5, "steps": 3, "_weight": 9}],
         path_seconds=60)
def life_on_tori(ctx, rows, cols, free, steps):
    """every cell of the torus follows the rule"""
    ntm = ctx.ntm
    n = rows * cols
    base = [1 if k % 3 == 0 else 0 for k in range(n)]
    x = ctx.ints("x", free, 0, 1)
    s = [x[(k * 7 % n)] if k * 7 % n < free else base[k] for k in range(n)]
    traj = ntm.evolve(network=ntm.topology.cellular_automaton2d(rows, cols), initial_conditions=list(s), timesteps=steps,
                      activity_rule=ntm.rules.game_of_life_rule)

    def rule(me, around):
        live = sum(around)
        return ctx.ite(ctx.either(live == 3, ctx.both(me == 1, live == 2)), 1, 0)
    for t in range(1, steps):
        s = torus(ctx, rows, cols, s, rule)
        same_activities(ctx, "activities", traj[t].activities, dict(enumerate(s)))


@harness(quick=[{"rows": 3, "cols": 4, "free": 3, "steps": 3, "_weight": 3}], thorough=[{"rows": 4, "cols": 5, "free": 5, "steps": 3, "_weight": 9}])
def wireworld_on_tori(ctx, rows, cols, free, steps):
    """every cell of the torus follows the rule"""
    ntm = ctx.ntm
    n = rows * cols
    x = ctx.ints("x", free, 0, 3)
    s = [x[k * 5 % n] if k * 5 % n < free else [3, 0, 3, 2, 1][k % 5] for k in range(n)]
    traj = ntm.evolve(network=ntm.topology.cellular_automaton2d(rows, cols), initial_conditions=list(s), timesteps=steps,
                      activity_rule=ntm.rules.wireworld_rule)

    def rule(me, around):
        heads = sum(ctx.ite(c == 1, 1, 0) for c in around)
        fire = ctx.either(heads == 1, heads == 2)
        return ctx.ite(me == 0, 0, ctx.ite(me == 1, 2, ctx.ite(me == 2, 3, ctx.ite(fire, 1, 3))))
    for t in range(1, steps):
        s = torus(ctx, rows, cols, s, rule)
        same_activities(ctx, "activities", traj[t].activities, dict(enumerate(s)))


@harness(quick=[{"rows": 6, "cols": 7, "steps": 8}, {"rows": 11, "cols": 3, "steps": 5}], thorough=[{"rows": 12, "cols": 11, "steps": 20}], path_seconds=60)
def long_runs(ctx, rows, cols, steps):
    """many timesteps on larger tori, with some arbitrary cells"""
    ntm = ctx.ntm
    n = rows * cols
    wire = ctx.flag("wireworld")
    if wire:
        s = [[0, 3, 3, 0, 3, 1, 2][(k * k + k // 5) % 7] for k in range(n)]
        s[cols + 1], s[2 * cols] = ctx.choice("a", range(4)), ctx.choice("b", range(4))
    else:
        s = [1 if (k * k + 3 * k // cols) % 5 < 2 else 0 for k in range(n)]
        for k in range(4):
            s[(k * 7 + cols) % n] = 1 if ctx.flag("x%d" % k) else 0
    traj = ntm.evolve(network=ntm.topology.cellular_automaton2d(rows, cols), initial_conditions=list(s), timesteps=steps,
                      activity_rule=ntm.rules.wireworld_rule if wire else ntm.rules.game_of_life_rule)

    def rule(me, around):
        if wire:
            return [0, 2, 3, 1 if around.count(1) in (1, 2) else 3][me]
        return 1 if sum(around) == 3 or me and sum(around) == 2 else 0
    for t in range(1, steps):
        s = torus(ctx, rows, cols, s, rule)
        same_activities(ctx, "activities", traj[t].activities, dict(enumerate(s)))


@harness(quick=[{"m": 24}, {"m": 48}])
def wide_neighbourhoods(ctx, m):
    """neighbourhoods of larger radius: a few cells anywhere differ from the rest"""
    rules = ctx.ntm.rules
    cells = [0] * (m + 1)
    wire = ctx.flag("wireworld")
    p = ctx.choice("where", [0, 7, m // 2 + 1, m - 3])
    for q in range(4):
        if p + q != m // 2:
            cells[p + q] = ctx.int("x%d" % q, 0, 3 if wire else 1)
    me = cells[m // 2] = ctx.int("me", 0, 3 if wire else 1)
    around = [c for k, c in enumerate(cells) if k != m // 2]
    if wire:
        heads = sum(ctx.ite(c == 1, 1, 0) for c in around)
        new = rules.wireworld_rule(node_context(ctx, list(cells), me))
        fire = ctx.either(heads == 1, heads == 2)
        ctx.eq("next state", new, ctx.ite(me == 0, 0, ctx.ite(me == 1, 2, ctx.ite(me == 2, 3, ctx.ite(fire, 1, 3)))))
    else:
        new = rules.game_of_life_rule(node_context(ctx, list(cells), me))
        live = sum(around)
        ctx.eq("next state", new, ctx.ite(ctx.either(live == 3, ctx.both(me == 1, live == 2)), 1, 0))


@harness(quick=[{}])
def kinds_of_numbers(ctx):
    """cells as ints, booleans, floats and numpy scalars"""
    import numpy as np
    kind = ctx.choice("kind", ["int", "bool", "float", "int8", "int64", "float64"])
    of = {"int": int, "bool": bool, "float": float}.get(kind) or getattr(np, kind)
    live, me = ctx.choice("live", range(6)), ctx.choice("me", [0, 1])
    m = ctx.choice("neighbours", [8, 24])
    cells = [1] * live + [0] * (m - live)
    cells.insert(4, me)
    new = ctx.ntm.rules.game_of_life_rule(node_context(ctx, [of(c) for c in cells], of(me)))
    ctx.eq("life", new, 1 if live == 3 or me and live == 2 else 0)
    if kind != "bool":
        me = ctx.choice("wire", range(4))
        cells[4] = me
        new = ctx.ntm.rules.wireworld_rule(node_context(ctx, [of(c) for c in cells], of(me)))
        ctx.eq("wireworld", new, [0, 2, 3, 1 if live in (1, 2) else 3][me])
