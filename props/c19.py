"""C19: totalistic rules."""
from sx.harness import harness
from .c18 import node_context
from .common import same_activities

BOUNDS = ("every rule number in range for 2 to 5 colours with 1 to 5 cells (3 cells with up to 7 colours, 1 with up "
          "to 16, and 36 with rule numbers of up to 6 digits), arbitrary cells; every rule number with more digits than allowed up to two digits more; sums of up to 175 (k=36, n=5) under a given rule number; a ring of 3 cells "
          "under an arbitrary rule number of 2 and 3 colours.")

OUTSIDE = "more than 36 colours; negative rule numbers; larger neighbourhoods."


def digit(ctx, rule, k, count, s):
    out = 0
    for j in range(count):
        out = ctx.ite(s == j, (rule // k ** j) % k, out)
    return out


PAIRS = [(2, 1), (2, 3), (2, 5), (3, 1), (3, 2), (3, 3), (4, 3), (5, 2), (7, 1), (10, 1), (16, 1)]


@harness(quick=[{"k": k, "n": n, "_weight": k * n} for k, n in PAIRS] + [{"k": 36, "n": 1, "digits": 6}],
         thorough=[{"k": k, "n": n, "_weight": 40} for k, n in ((3, 5), (5, 3), (7, 3), (2, 9), (10, 2), (36, 1))], path_seconds=60)
def rules(ctx, k, n, digits=None):
    """the digit at the neighbourhood sum"""
    ntm = ctx.ntm
    top = k ** (digits or n * (k - 1) + 1)
    rule = ctx.int("rule", 0, top - 1)
    cells = ctx.ints("c", n, 0, k - 1)
    got = ntm.rules.totalistic_ca(k=k, rule=rule)(node_context(ctx, list(cells)))
    s = sum(cells)
    ctx.eq("the base-k digit at the sum", got, digit(ctx, rule, k, n * (k - 1) + 1, s))


@harness(quick=[{"k": k, "n": n} for k, n in ((2, 1), (2, 3), (3, 3), (4, 2), (10, 1), (36, 1))])
def out_of_range(ctx, k, n):
    """rule numbers with too many digits are rejected, whatever the neighbourhood"""
    ntm = ctx.ntm
    top = k ** (n * (k - 1) + 1)
    rule = ctx.int("rule", top, top * k * k - 1)
    cells = ctx.ints("c", n, 0, k - 1)
    ctx.raises("too many digits are rejected", lambda: ntm.rules.totalistic_ca(k, rule)(node_context(ctx, list(cells))))


@harness(quick=[{"k": 2, "n": 3}, {"k": 2, "n": 4}, {"k": 3, "n": 3, "_weight": 4}])
def evolved(ctx, k, n):
    """a ring of arbitrary cells under an arbitrary rule"""
    ntm = ctx.ntm
    rule = ctx.int("rule", 0, k ** (3 * (k - 1) + 1) - 1)
    s = ctx.ints("s", n, 0, k - 1)
    traj = ntm.evolve(network=ntm.topology.cellular_automaton(n), initial_conditions=list(s), timesteps=2,
                      activity_rule=ntm.rules.totalistic_ca(k, rule))
    same_activities(ctx, "activities", traj[1].activities,
                    {i: digit(ctx, rule, k, 3 * (k - 1) + 1, s[i - 1] + s[i] + s[(i + 1) % n]) for i in range(n)})


@harness(quick=[{"k": 36, "n": 5}, {"k": 16, "n": 9}])
def large_sums(ctx, k, n):
    """many colours and cells (sums beyond 127): a given rule number, most cells at the top, two arbitrary"""
    ntm = ctx.ntm
    digits = [(j * j + 3 * j) % k for j in range(n * (k - 1) + 1)]
    rule = sum(d * k ** j for j, d in enumerate(digits))
    cells = [k - 1] * n
    i = ctx.choice("where", range(n))
    cells[i], cells[i - 1] = ctx.int("a", 0, k - 1), ctx.int("b", 0, 2)
    s = sum(int(c) for c in cells)
    ctx.eq("the base-k digit at the sum", ntm.rules.totalistic_ca(k=k, rule=rule)(node_context(ctx, cells)), digits[s])


@harness(quick=[{"sizes": (3, 2, 3)}, {"sizes": (1, 3, 2)}])
def one_rule_many_neighbourhoods(ctx, sizes):
    """several rules at work at once, each on nodes with neighbourhoods of different sizes"""
    ntm = ctx.ntm
    rules = [(2, 2), (3, 5), (3, 19), (4, 201), (2, 3)]
    fns = [ntm.rules.totalistic_ca(k, r) for k, r in rules]
    first = ctx.choice("first", range(len(rules)))
    for j, n in enumerate(sizes):
        for q in range(2):
            k, r = rules[(first + q) % len(rules)]
            last = j == len(sizes) - 1
            cells = ctx.ints("c%d" % q, n, 0, k - 1) if last else [(j + q + i) % k for i in range(n)]
            got = fns[(first + q) % len(rules)](node_context(ctx, list(cells)))
            ctx.eq("the base-k digit at the sum", got, digit(ctx, r, k, n * (k - 1) + 1, sum(cells)))


@harness(quick=[{"k": 2, "n": 3}, {"k": 5, "n": 2}])
def kinds_of_numbers(ctx, k, n):
    """cells as ints, booleans and numpy scalars"""
    import numpy as np
    ntm = ctx.ntm
    rule = sum(((j * j + 2 * j + 1) % k) * k ** j for j in range(n * (k - 1) + 1))
    kind = ctx.choice("kind", ["int", "bool", "int8", "int16", "int64"])
    cells = [ctx.choice("c%d" % i, range(2 if kind == "bool" else k)) for i in range(n)]
    given = [bool(c) if kind == "bool" else c if kind == "int" else getattr(np, kind)(c) for c in cells]
    got = ntm.rules.totalistic_ca(k, rule)(node_context(ctx, given))
    ctx.eq("the base-k digit at the sum", got, rule // k ** sum(cells) % k)
