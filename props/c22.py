"""C22: random rule tables."""
import itertools
from sx.harness import harness
from .c18 import node_context

BOUNDS = ("k and r with up to 8 entries: every random draw and arbitrary lambda (k=2, r=1; k=2..8, r=0); larger tables (k=3 and 4 with "
          "r=1, k=2 with r=2 and 3): the first few draws arbitrary, the others fixed; 11 to 36 states with strong quiescence (r=0); every quiescent state (also invalid ones and the "
          "default), strong quiescence and isotropy on and off; table_rule on every neighbourhood of 1 to 5 cells over up "
          "to 10 states, with complete and incomplete tables.")

OUTSIDE = "more than 36 states (numpy's limit of bases); table_rule with more than 10 states (known finding)."

DIGITS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def entries(k, r):
    return ["".join(p) for p in itertools.product(DIGITS[:k], repeat=2 * r + 1)]


def checks(ctx, k, r, table, lam, q, lambda_val, strong, isotropic, draws):
    keys = entries(k, r)
    ctx.check("one entry per neighbourhood", sorted(table) == keys)
    ctx.all("states in range", [ctx.both(table[s] >= 0, table[s] <= k - 1) for s in keys])
    quiet = sum(ctx.ite(table[s] == q, 1, 0) for s in keys)
    ctx.near("the reported lambda", lam, (len(keys) - quiet) / len(keys), 1e-12)
    reals = [d[3] for d in draws if d[0] == "real"]
    used, done = 0, set()
    for s in keys:
        if strong and len(set(s)) == 1:
            ctx.check("strong quiescence", table[s] == int(s[0], k))
        elif isotropic and s[::-1] in done:
            ctx.check("isotropy", table[s] == table[s[::-1]])
        else:
            ctx.check("an own draw", used < len(reals))
            below = reals[used] < 1 - lambda_val
            used += 1
            ctx.check("quiescent exactly if the draw is below 1 - lambda",
                      ctx.both(ctx.implies(below, table[s] == q), ctx.implies(ctx.neg(below), ctx.neg(table[s] == q))))
        done.add(s)
    ctx.check("one draw per free entry", used == len(reals))


@harness(quick=[{"k": 2, "r": 1, "strong": s, "iso": i, "_weight": 3 - s - i} for s in (0, 1) for i in (0, 1)] +
         [{"k": k, "r": 0, "strong": 0, "iso": 0} for k in (2, 3, 5, 7)] + [{"k": 4, "r": 0, "strong": 1, "iso": 0}],
         thorough=[{"k": 8, "r": 0, "strong": 0, "iso": 0, "_weight": 9}], path_seconds=40)
def small_tables(ctx, k, r, strong, iso):
    """all draws arbitrary, lambda arbitrary"""
    ntm = ctx.ntm
    lam = ctx.real("lambda", 0, 1)
    q = ctx.int("q", 0, k - 1) if r == 0 else ctx.choice("q", range(k))
    table, actual, qq = ntm.random_rule_table(k=k, r=r, lambda_val=lam, quiescent_state=q, strong_quiescence=bool(strong),
                                              isotropic=bool(iso))
    ctx.eq("the quiescent state", qq, q)
    checks(ctx, k, r, table, actual, q, lam, strong, iso, ctx.draws)


@harness(quick=[{"k": k, "r": r, "strong": s, "iso": i, "free": 6, "_weight": 2} for k, r in ((3, 1), (2, 2)) for s in (0, 1) for i in (0, 1)] +
         [{"k": 4, "r": 1, "strong": 1, "iso": 1, "free": 5, "_weight": 2}, {"k": 2, "r": 3, "strong": 1, "iso": 1, "free": 5, "_weight": 2}],
         thorough=[{"k": k, "r": r, "strong": s, "iso": i, "free": 10, "_weight": 9} for k, r in ((3, 1), (4, 1)) for s in (0, 1)
                   for i in (0, 1)], path_seconds=40)
def larger_tables(ctx, k, r, strong, iso, free):
    """the first draws arbitrary, lambda given or the default"""
    ntm = ctx.ntm
    given = ctx.choice("lambda", [None, 0.37, 0.0, 1.0])
    q = ctx.choice("q", [0, k - 1])
    ctx.first_draws(free, [0.1, 0.9, 0.45, 0.7, 0.31, 0.62, 0.03])
    if strong or iso:
        table, actual, qq = ntm.random_rule_table(k, r, given, q, bool(strong), bool(iso))
    else:
        table, actual, qq = ntm.random_rule_table(k, r, given, q)   # both are off by default
    ctx.eq("the quiescent state", qq, q)
    checks(ctx, k, r, table, actual, q, (1. - 1. / k) if given is None else given, strong, iso, ctx.draws)


@harness(quick=[{"k": 2, "r": 0}, {"k": 3, "r": 0}])
def default_quiescent_state(ctx, k, r):
    """drawn among the states when it is not given; rejected when it is not a state"""
    ntm = ctx.ntm
    table, actual, q = ntm.random_rule_table(k, r)
    ctx.check("a state", ctx.both(q >= 0, q <= k - 1))
    ints = [d for d in ctx.draws if d[0] == "int"]
    ctx.check("every state can be drawn", len(ints) > 0 and (ints[0][1], ints[0][2]) == (0, k - 1))
    checks(ctx, k, r, table, actual, q, 1. - 1. / k, False, False, ctx.draws)
    bad = ctx.int("bad", -5, 9)
    ctx.assume(ctx.either(bad < 0, bad >= k))
    ctx.raises("an invalid quiescent state is rejected", lambda: ntm.random_rule_table(k, r, quiescent_state=bad))


@harness(quick=[{"k": 2, "n": 1}, {"k": 2, "n": 3}, {"k": 2, "n": 5, "_weight": 2}, {"k": 3, "n": 3, "_weight": 2}, {"k": 10, "n": 2, "_weight": 3}],
         thorough=[{"k": 4, "n": 3}, {"k": 3, "n": 5, "_weight": 9}])
def table_rule(ctx, k, n):
    """the entry for the neighbourhood; unknown ones are rejected"""
    ntm = ctx.ntm
    keys = ["".join(p) for p in itertools.product(DIGITS[:k], repeat=n)]
    table = {s: ctx.int("t" + s) for s in keys}
    missing = ctx.choice("missing", [None, keys[0], keys[-1], keys[len(keys) // 2]])
    if missing is not None:
        table.pop(missing)
    cells = ctx.ints("c", n, 0, k - 1)
    c = node_context(ctx, list(cells))
    rule = ntm.table_rule(table)
    concrete = [int(x) for x in cells]   # one path per neighbourhood
    s = "".join(str(x) for x in concrete)
    if s == missing:
        ctx.raises("an unknown neighbourhood is rejected", lambda: rule(c))
    else:
        ctx.eq("the entry for the neighbourhood", rule(c), table[s])


@harness(quick=[{"k": k, "strong": s} for k in (11, 16, 17, 26, 36) for s in (0, 1)], thorough=[{"k": 17, "strong": 1, "r": 1, "_weight": 3}])
def many_states(ctx, k, strong, r=0):
    """more than ten states: the keys are digits of base k"""
    ntm = ctx.ntm
    q = ctx.choice("q", [0, 9, 10, k - 1])
    lam = ctx.choice("lambda", [0.25, 0.0, 1.0])
    ctx.first_draws(3, [0.1, 0.9, 0.45, 0.7, 0.31, 0.62, 0.03])
    table, actual, qq = ntm.random_rule_table(k, r, lam, q, bool(strong), ctx.flag("isotropic"))
    ctx.eq("the quiescent state", qq, q)
    checks(ctx, k, r, table, actual, q, lam, strong, 0, ctx.draws)


@harness(quick=[{}], known=True)
def looked_up(ctx):
    """a random table of more than ten states can be looked up"""
    ntm = ctx.ntm
    k = ctx.choice("k", [11, 16, 36])
    cell = int(ctx.int("cell", 0, 35))
    ctx.assume(cell < k)
    table, _, _ = ntm.random_rule_table(k, 0, 0.0, 3, True)
    try:
        got = ntm.table_rule(table)(node_context(ctx, [cell]))
    except Exception:
        got = None
    if cell < 10:
        ctx.check("states below ten are looked up", got == cell)
    else:
        ctx.check("states from ten on are looked up", got == cell)


@harness(quick=[{}])
def states_of_any_text(ctx):
    """states that are negative, of several digits, words or booleans: the key is their texts one after the other"""
    states = ctx.choice("states", [(-1, 0, 1), (1, 12, 345), ("a", "bc", "def"), (True, False, None), ("", "x", "xy"), (0.5, 1.0, 10)])
    cells = [ctx.choice("c%d" % i, states) for i in range(3)]
    key = "".join(str(x) for x in cells)
    table = {key: ctx.int("image"), key + "1": 71, key[:-1]: 72, key[1:]: 73, key[::-1] + " ": 74}
    table[key] = ctx.int("image")
    c = node_context(ctx, list(cells))
    rule = ctx.ntm.table_rule(table)
    ctx.eq("the entry for the neighbourhood", rule(c), table[key])
    del table[key]
    ctx.raises("an unknown neighbourhood is rejected", lambda: ctx.ntm.table_rule(dict(table))(c))


@harness(quick=[{}])
def two_tables(ctx):
    """rules of several tables used in turns, on neighbourhoods of different sizes"""
    tables = [{"01": ctx.int("a"), "110": ctx.int("b"), "0": 5}, {"01": ctx.int("c"), "110": 7, "1": 8}]
    rules = [ctx.ntm.table_rule(t) for t in tables]
    i = int(ctx.int("first", 0, 1))
    for cells in ([0, 1], [1, 1, 0], [0, 1]):
        for j in (i, 1 - i):
            ctx.eq("the entry for the neighbourhood", rules[j](node_context(ctx, list(cells))), tables[j]["".join(map(str, cells))])
