"""C33: hypergraph configurations as networks."""
from sx.harness import harness

BOUNDS = ("every list of up to 3 relations with 1 to 4 nodes each and together up to 5 (thorough: 6) arbitrary positive integers (all equality and order "
          "patterns), lists of 9 to 30 relations over two or three arbitrary integers; tuples and lists; relations of up to 40 nodes (thorough: 150).")

OUTSIDE = "empty relations; node labels that are not positive integers; longer lists with more distinct nodes."


def check(ctx, config):
    ntm = ctx.ntm
    model = ntm.WolframPhysicsModel([list(r) for r in config] if ctx.flag("lists") else [tuple(r) for r in config], {"in": [], "out": []})
    back = ntm.WolframPhysicsModel.network_to_config(model.network)
    ctx.check("number of relations", len(back) == len(config))
    ctx.check("arities in order", [len(r) for r in back] == [len(r) for r in config])
    ctx.eq("the same relations in the same order", [list(r) for r in back], [list(r) for r in config])
    nodes = [x for r in config for x in r]
    ctx.check("the last node occurs", ctx.either(*[model.last_node == x for x in nodes]))
    ctx.all("the last node is the largest", [model.last_node >= x for x in nodes])
    state = ntm.State(network=model.network)
    ctx.eq("to_configurations", [[list(r) for r in c] for c in model.to_configurations([state, state])], [[list(r) for r in config]] * 2)
    again = ntm.WolframPhysicsModel(back, {"in": [], "out": []})
    ctx.eq("a second round trip", [list(r) for r in again.network_to_config(again.network)], [list(r) for r in config])


ARITIES = [[1], [2], [3], [4], [1, 1], [1, 2], [2, 1], [2, 2], [1, 3], [3, 1], [1, 1, 2], [2, 1, 1], [1, 1, 1]]


@harness(quick=[{"arities": a, "_weight": sum(a)} for a in ARITIES + [[3, 2], [2, 3], [2, 2, 1], [1, 4], [5]]],
         thorough=[{"arities": a, "_weight": 9} for a in ([3, 3], [2, 4], [2, 2, 2], [1, 2, 3], [6])], path_seconds=60)
def any_labels(ctx, arities):
    """arbitrary labels"""
    check(ctx, [[ctx.opaque("n%d_%d" % (i, j), 1) for j in range(a)] for i, a in enumerate(arities)])


@harness(quick=[{"n": n, "step": s} for n in (9, 10, 11, 13, 21) for s in (1, 2)] + [{"n": 105, "step": 1}], path_seconds=60)
def many(ctx, n, step):
    """more than nine relations, repeated relations and nodes"""
    a, b, c = [ctx.opaque(x, 1) for x in "abc"]
    nodes = [a, b, a, c, b, b, a]
    config, k = [], 0
    for i in range(n):
        m = [2, 1, 3, 2, 4][i * step % 5]
        config.append([nodes[(k + j) % 7] for j in range(m)])
        k += m
    check(ctx, config)


@harness(quick=[{"n": 2}, {"n": 3, "_weight": 3}])
def concrete_labels(ctx, n):
    """small labels, every arity"""
    config = []
    for i in range(n):
        m = ctx.choice("arity", [1, 2, 3])
        config.append([ctx.choice("n", [1, 10] if j else [10, 2]) for j in range(m)])
    check(ctx, config)


@harness(quick=[{"m": 13}, {"m": 40}], thorough=[{"m": 150}], path_seconds=60)
def long_relations(ctx, m):
    """relations of many nodes, the largest label anywhere, also in a late relation"""
    a, b = ctx.opaque("a", 1), ctx.opaque("b", 1)
    nodes = [(i * i) % 9 + 1 for i in range(m)]
    nodes[m // 2], nodes[-1] = a, b
    config = [[3, a], nodes, nodes[::-1]] + [[1 + i % 4, 2] for i in range(22)] + [[b, 4], [100 * ctx.choice("big", [0, 1]) + 1, 2, 5]]
    check(ctx, config)


@harness(quick=[{}])
def several_models(ctx):
    """models of other configurations do not change a model"""
    ntm = ctx.ntm
    a = ctx.opaque("a", 1)
    configs = [[(1, 2), (2, a, 3)], [(5,), (7, a)], [(1, 2), (2, 1)]]
    models = [ntm.WolframPhysicsModel(c, {"in": [], "out": []}) for c in configs]
    for m, c in zip(models, configs):
        ctx.eq("its own relations", [list(r) for r in m.network_to_config(m.network)], [list(r) for r in c])
        ctx.check("its own last node", ctx.both(*[m.last_node >= x for r in c for x in r]))
