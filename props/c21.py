"""C21: the majority rule."""
from sx import values as v
from sx.harness import harness
from .c18 import node_context

BOUNDS = ("neighbourhoods of 1 to 6 arbitrary values (every equality pattern between them), every random draw; for ties, the set of "
          "results over draws that reach every item of a list of up to 6; "
          "neighbourhoods of 11 and 40 (thorough: 200) values, two of them arbitrary.")

OUTSIDE = "larger neighbourhoods; values that are not hashable."


def classes(cells):
    """groups of equal cells, decided on the path"""
    out = []
    for c in cells:
        for g in out:
            same = v.cond_term(v.deep_eq(g[0], c))
            if same is True or (same is not False and bool(v.mkbool(same))):
                g.append(c)
                break
        else:
            out.append([c])
    return out


@harness(quick=[{"n": n, "kind": k, "_weight": n} for n in (1, 2, 3, 4, 5) for k in ("opaque", "int")],
         thorough=[{"n": 6, "kind": "opaque", "_weight": 9}, {"n": 7, "kind": "opaque", "_weight": 12}], path_seconds=60)
def majority(ctx, n, kind):
    """one of the most frequent states"""
    cells = [ctx.opaque("c%d" % k) for k in range(n)] if kind == "opaque" else ctx.ints("c", n, 0, 3)
    got = ctx.ntm.rules.majority_rule(node_context(ctx, list(cells)))
    groups = classes(cells)
    top = max(len(g) for g in groups)
    best = [g[0] for g in groups if len(g) == top]
    ctx.check("one of the most frequent states", ctx.either(*[got == b for b in best]))


@harness(quick=[{"n": n, "_weight": n} for n in (2, 3, 4, 5)], thorough=[{"n": 6, "_weight": 9}], path_seconds=60)
def every_tied_state(ctx, n):
    """each most frequent state can be the result"""
    cells = [ctx.opaque("c%d" % k) for k in range(n)]
    groups = classes(cells)
    top = max(len(g) for g in groups)
    best = [g[0] for g in groups if len(g) == top]
    results = []
    for k in range(60):
        ctx.scripted([(2 * k + 1) / 120.0] * 20)
        results.append(ctx.ntm.rules.majority_rule(node_context(ctx, list(cells))))
    for b in best:
        ctx.check("each tied state is possible", ctx.either(*[r == b for r in results]))


@harness(quick=[{}])
def other_values(ctx):
    """strings, tuples and mixed values"""
    cells = ctx.choice("cells", [["a", "b", "a"], ["b", "b", "a"], [(0, 1), (1, 0), (0, 1)], [0, "0", "0"], [-1.5, 2, -1.5], [0, 0, 1, 1, 1]])
    got = ctx.ntm.rules.majority_rule(node_context(ctx, list(cells)))
    want = max(cells, key=lambda x: cells.count(x))
    ctx.check("the unique most frequent state", got == want)


@harness(quick=[{"n": 11}, {"n": 40}], thorough=[{"n": 200}])
def larger(ctx, n):
    """larger neighbourhoods, two cells of which are arbitrary"""
    k = ctx.choice("states", [2, 3, 12, n])
    cells = [(i * i + i // 4) % k for i in range(n)]
    cells[n // 2], cells[0] = ctx.int("a", 0, 12), ctx.int("b", 0, 3)
    got = ctx.ntm.rules.majority_rule(node_context(ctx, list(cells)))
    groups = classes(cells)
    top = max(len(g) for g in groups)
    ctx.check("one of the most frequent states", ctx.either(*[got == g[0] for g in groups if len(g) == top]))
