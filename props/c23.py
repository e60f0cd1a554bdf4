"""C23: table walk-through."""
from sx.harness import harness
from .c22 import entries

BOUNDS = ("every table over k=2..4 states with r=0 and every outcome of the random choices; tables with k=2, r=1 (plain, strongly "
          "quiescent, isotropic, both; up to 3 entries fixed on quick, none on thorough) with the first choices arbitrary and the later "
          "ones fixed; k=3, r=1 (27 entries, 3 of them arbitrary); every target lambda in [0, 1] (k=3: every value a table can have "
          "and values between them) and every quiescent state; tables of 12, 128 and 243 entries (thorough: 512 and 1024), one of them arbitrary, for four targets.")

OUTSIDE = "tables that lack the isotropy or strong quiescence they are said to have; larger tables."


def target(ctx, n):
    """lambda values a table can have (as floats) and values between them"""
    if n & (n - 1) == 0:
        return ctx.real("lambda", 0, 1)
    js = range(n + 1) if n < 9 else (0, 12, 14, 15, 27)
    return ctx.choice("lambda", [j / n for j in js] + [(2 * j + 1) / (2 * n) for j in js if j < n])


def walk(ctx, table, keys, k, r, q, lam, strong, iso):
    ntm = ctx.ntm
    before = dict(table)
    kw = {a: True for a, on in (("strong_quiescence", strong), ("isotropic", iso)) if on}   # both are off by default
    out, reported = ntm.table_walk_through(dict(table), lam, k, r, q, **kw)
    n = len(keys)
    ctx.check("the table stays complete", sorted(out) == keys)
    ctx.all("states in range", [ctx.both(out[s] >= 0, out[s] <= k - 1) for s in keys])
    quiet = lambda t: sum(ctx.ite(t[s] == q, 1, 0) for s in keys)
    q0, q1 = int(quiet(before)), int(quiet(out))
    ctx.near("the reported lambda is the table's", reported, (n - q1) / n, 1e-12)
    start, end = (n - q0) / n, (n - q1) / n
    changed = {s: bool(out[s] != before[s]) for s in keys}
    down, up = ctx.both(start > lam), ctx.both(start < lam)
    ctx.check("no change if lambda is the target", ctx.implies(ctx.both(ctx.neg(down), ctx.neg(up)), not any(changed.values())))
    ctx.all("only to quiescent when lambda must fall", [ctx.implies(down, ctx.both(before[s] != q, out[s] == q)) for s in keys if changed[s]])
    ctx.all("only from quiescent when lambda must rise", [ctx.implies(up, ctx.both(before[s] == q, out[s] != q)) for s in keys if changed[s]])
    uniform = lambda s: len(set(s)) == 1
    free = [s for s in keys if not (strong and uniform(s))]
    ctx.check("strong quiescence is kept", all(not changed[s] for s in keys if s not in free))
    if iso:
        ctx.all("isotropy is kept", [out[s] == out[s[::-1]] for s in keys])
    # it goes on until the target is reached or nothing can be changed
    ctx.check("goes on while lambda is too large", ctx.implies(ctx.both(down, end > lam), ctx.both(*[out[s] == q for s in free])))
    ctx.check("goes on while lambda is too small", ctx.implies(ctx.both(up, end < lam), ctx.both(*[out[s] != q for s in free])))
    # and not further: without the last change the target was not reached
    steps = [2 if iso and s != s[::-1] else 1 for s in keys if changed[s]]
    if steps:
        last = max(steps)
        ctx.check("stops when lambda is small enough", ctx.implies(down, (n - q1 + last) / n > lam))
        ctx.check("stops when lambda is large enough", ctx.implies(up, (n - q1 - last) / n < lam))


@harness(quick=[{"k": 2}, {"k": 3}, {"k": 4, "_weight": 9}], thorough=[{"k": 5, "_weight": 9}], path_seconds=40)
def radius_0(ctx, k):
    """every table and every choice"""
    keys = entries(k, 0)
    q = ctx.choice("q", range(k))
    table = {s: ctx.int("t" + s, 0, k - 1) for s in keys}
    walk(ctx, table, keys, k, 0, q, target(ctx, k), False, False)


@harness(quick=[{"strong": s, "iso": i, "free": 1 + (s & i), "full": s & i, "q": q, "_weight": 9 - 4 * i - 2 * s} for s in (0, 1) for i in (0, 1) for q in (0, 1)],
         thorough=[{"strong": s, "iso": i, "free": 2, "full": 1, "q": q, "_weight": 9} for s in (0, 1) for i in (0, 1) for q in (0, 1)], path_seconds=40)
def binary_radius_1(ctx, strong, iso, free, q, full):
    """every binary table of radius 1 (quick: some entries fixed)"""
    keys = entries(2, 1)
    fixed = {} if full else {"000": 0, "001": 1, "101": 0} if not strong else {"001": 1}
    table = {}
    for s in keys:
        if strong and len(set(s)) == 1:
            table[s] = int(s[0])
        elif iso and s[::-1] in table:
            table[s] = table[s[::-1]]
        elif s in fixed:
            table[s] = fixed[s]
        else:
            table[s] = ctx.int("t" + s, 0, 1)
    ctx.first_draws(free, [0.4, 0.99, 0.0, 0.7])
    walk(ctx, table, keys, 2, 1, q, ctx.real("lambda", 0, 1), strong, iso)


@harness(quick=[{"strong": s, "iso": i, "free": 1, "q": q, "_weight": 4} for s in (0, 1) for i in (0, 1) for q in (0, 2)],
         thorough=[{"strong": s, "iso": i, "free": 2, "q": 1, "_weight": 9} for s in (0, 1) for i in (0, 1)], path_seconds=60)
def ternary_radius_1(ctx, strong, iso, free, q):
    """27 entries, a few of them arbitrary"""
    keys = entries(3, 1)
    base = [0, 2, 1, 1, 0, 2, 0, 0, 1, 2, 1, 0, 0, 2]
    table = {}
    for n, s in enumerate(keys):
        if strong and len(set(s)) == 1:
            table[s] = int(s[0])
        elif iso and s[::-1] in table:
            table[s] = table[s[::-1]]
        elif s in ("001", "021", "210"):
            table[s] = ctx.int("t" + s, 0, 2)
        else:
            table[s] = base[n % len(base)]
    ctx.first_draws(free, [0.4, 0.99, 0.0, 0.7, 0.2])
    walk(ctx, table, keys, 3, 1, q, target(ctx, 27), strong, iso)


@harness(quick=[{"k": 3, "r": 2, "strong": s, "iso": i} for s, i in ((0, 0), (1, 1))] + [{"k": 2, "r": 3, "strong": 0, "iso": 1}, {"k": 12, "r": 0, "strong": 0, "iso": 0}],
         thorough=[{"k": 4, "r": 2, "strong": 0, "iso": 0, "_weight": 9}, {"k": 2, "r": 4, "strong": 1, "iso": 0, "_weight": 5}], path_seconds=120)
def many_entries(ctx, k, r, strong, iso):
    """large tables and long walks, with some arbitrary entries; quiescent states of every number type"""
    import numpy as np
    keys = entries(k, r)
    n = len(keys)
    full = ctx.choice("start", ["quiescent", "none", "mixed"])
    q = 1
    table = {}
    for a, s in enumerate(keys):
        if strong and len(set(s)) == 1:
            table[s] = int(s[0], k)
        elif iso and s[::-1] in table:
            table[s] = table[s[::-1]]
        elif full == "mixed":
            table[s] = (a * a + a // 3) % k
        else:
            table[s] = q if full == "quiescent" else (a % (k - 1) + 2) % k
    free = [s for s in keys if s == s[::-1] and len(set(s)) > 1] or keys[1:2]
    table[free[-1]] = ctx.choice("free", range(min(k, 3)))
    ctx.first_draws(0, [0.4, 0.99, 0.0, 0.7, 0.2, 0.51])
    given = ctx.choice("number", [int, np.int64])(q)
    lam = ctx.choice("lambda", [0.0, 1.0, 0.3, 0.55])
    walk(ctx, table, keys, k, r, given, lam, strong, iso)
