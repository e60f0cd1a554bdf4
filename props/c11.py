"""C11: edge and node attributes."""
from sx.harness import harness
from .common import large_graph

BOUNDS = ("two nodes with 1 to 3 parallel edges next to other edges, every set of attribute names out of three per edge, every set "
          "of indices of update_edge (each written in every order for up to 2), one to three updates in sequence, arbitrary "
          "values; node attributes given once, twice and after edges; the existence pattern of a looked up edge in a graph of "
          "2 nodes; "
          "3 (thorough: 6) parallel edges with up to 5 equal attributes next to others like them, one updated; a graph of 11 nodes with 12 parallel edges (thorough: 25 nodes).")

OUTSIDE = ("attributes named like the fields the library keeps in a node (in, out, incoming, outgoing) or like the parameters i, j, "
           "indices and node_label; negative indices.")

KEYS = ("a", "b", "weight")


def attrs(ctx, name):
    return {k: ctx.int("%s_%s" % (name, k)) for k in KEYS if ctx.flag("%s_has_%s" % (name, k))}


@harness(quick=[{"m": m, "_weight": m} for m in (1, 2)], thorough=[{"m": 3, "_weight": 9}])
def given_attributes(ctx, m):
    """every edge instance carries exactly what it was given"""
    net = ctx.ntm.Network()
    given = [attrs(ctx, "e%d" % k) for k in range(m)]
    kept = [dict(g) for g in given]
    for g in given:
        net.add_edge("x", "y", **g)
    net.add_edge("y", "x", other=1)
    net.add_edge("x", "x")
    both = attrs(ctx, "bidir")
    net.add_edge_bidir("y", "z", **both)
    ctx.eq("edge attributes in order", [dict(d) for d in net.edge("x", "y")], kept)
    ctx.eq("in-edge attributes", [dict(d) for d in net.in_edges("y")["x"]], kept)
    ctx.eq("other edges", [dict(d) for e in (("y", "x"), ("x", "x"), ("y", "z"), ("z", "y")) for d in net.edge(*e)],
           [{"other": 1}, {}, both, both])
    net.edge("y", "z")
    net.update_edge("y", "z", a=5)
    ctx.eq("the two directions of a bidirectional edge are separate", [dict(d) for d in net.edge("z", "y")], [both])
    for g in given:
        g["new"] = 1
    ctx.eq("the given attributes are copied", [dict(d) for d in net.edge("x", "y")], kept)
    listed = [(i, j, dict(d)) for i, j, d in net.edges]
    ctx.eq("edges", [d for i, j, d in listed if (i, j) == ("x", "y")], kept)


@harness(quick=[{"m": 2, "updates": 1}, {"m": 3, "updates": 1, "_weight": 4}, {"m": 2, "updates": 2, "_weight": 4}],
         thorough=[{"m": 3, "updates": 2, "_weight": 9}, {"m": 4, "updates": 1}])
def updates(ctx, m, updates):
    """update_edge changes the addressed edges and the given attributes only"""
    net = ctx.ntm.Network()
    model = {}

    def add(i, j, d):
        net.add_edge(i, j, **d)
        model.setdefault((i, j), []).append(dict(d))
    for k in range(m):
        add(0, 1, {"a": ctx.int("a%d" % k)} if k % 2 else {"a": ctx.int("a%d" % k), "weight": ctx.int("w%d" % k)})
    add(1, 0, {"a": ctx.int("back")})
    add(0, 0, {})
    add(2, 1, {"a": ctx.int("side")})
    for u in range(updates):
        new = {k: ctx.int("u%d_%s" % (u, k)) for k in (KEYS if u == 0 else KEYS[:2]) if ctx.flag("u%d_has_%s" % (u, k))}
        how = ctx.choice("how%d" % u, ["all", "explicit none", "indices", "reversed"])
        if how == "all":
            net.update_edge(0, 1, **new)
            idx = range(m)
        elif how == "explicit none":
            net.update_edge(0, 1, indices=None, **new)
            idx = range(m)
        else:
            idx = [k for k in range(m) if ctx.flag("u%d_index%d" % (u, k))]
            net.update_edge(0, 1, indices=idx[::-1] if how == "reversed" else list(idx), **new)
        for k in idx:
            model[(0, 1)][k].update(new)
    for (i, j), ds in model.items():
        ctx.eq("attributes of the edges", [dict(d) for d in net.edge(i, j)], ds)
    ctx.check("no edges appear", len(list(net.edges)) == m + 3)
    ctx.check("degrees", (net.in_degree(1), net.out_degree(0), net.degree(2)) == (m + 1, m + 1, 1))


@harness(quick=[{}])
def missing_edges(ctx):
    """updating or looking up an edge fails exactly if it does not exist"""
    net = ctx.ntm.Network(2)
    have = set()
    for i in (0, 1):
        for j in (0, 1):
            if ctx.flag("e%d%d" % (i, j)):
                net.add_edge(i, j, w=0)
                have.add((i, j))
    i, j = ctx.choice("i", [0, 1, 7]), ctx.choice("j", [0, 1, 7])
    x = ctx.int("x")
    before = sorted((a, b) for a, b, _ in net.edges)
    if (i, j) in have:
        net.update_edge(i, j, w=x)
        ctx.eq("edge lookup", net.edge(i, j)[0]["w"], x)
    else:
        ctx.raises("updating a missing edge fails", lambda: net.update_edge(i, j, w=x))
        ctx.raises("updating a missing edge fails", lambda: net.update_edge(i, j, indices=[0], w=x))
        ctx.raises("looking up a missing edge fails", lambda: net.edge(i, j))
    ctx.check("the edges are the same", sorted((a, b) for a, b, _ in net.edges) == before and len(net) == 2)


@harness(quick=[{}])
def node_attributes(ctx):
    """attributes given again are merged and edges are kept"""
    net = ctx.ntm.Network()
    w = ctx.int("w")
    first, second = attrs(ctx, "first"), attrs(ctx, "second")
    if ctx.flag("first_by_edge"):
        net.add_edge("n", "m", w=w)
        net.add_edge("n", "n", w=w)
        net.add_node("n", **first)
    else:
        net.add_node("n", **first)
        net.add_edge("n", "m", w=w)
        net.add_edge("n", "n", w=w)
    net.add_node("n", **second)
    net.add_node("n")
    want = dict(first)
    want.update(second)
    got = {k: net["n"][k] for k in KEYS if k in net["n"]}
    ctx.eq("node attributes are merged", got, want)
    ctx.check("the other node has none", all(k not in net["m"] for k in KEYS))
    ctx.eq("edges are kept", sorted([(i, j) for i, j, _ in net.edges]) + [d["w"] for _, _, d in net.edges],
           [("n", "m"), ("n", "n"), w, w])
    ctx.check("degrees are kept", (net.in_degree("n"), net.out_degree("n"), net.in_degree("m"), net.out_degree("m")) ==
              (1, 2, 1, 0) and len(net) == 2)
    given = net.to_networkx().nodes["n"]
    ctx.eq("exported node attributes", {k: given[k] for k in given}, want)


@harness(quick=[{"n": 11}], thorough=[{"n": 25}])
def larger(ctx, n):
    """a larger graph: updates of some of many parallel edges, and of every edge in turn"""
    net, labels, es = large_graph(ctx, n)
    x = ctx.int("x")
    for k in range(11):
        net.add_edge(labels[0], labels[3], w=x + k)
        es.setdefault((0, 3), []).append({"w": x + k})
    m = len(es[(0, 3)])
    idx = ctx.choice("idx", [[m - 1], [10, 2], list(range(0, m, 2)), [], list(range(m))[::-1]])
    net.update_edge(labels[0], labels[3], indices=idx, a=x, w=7)
    for i in idx:
        es[(0, 3)][i].update(a=x, w=7)
    for t, e in enumerate(sorted(es)):
        if t % 2:
            net.update_edge(labels[e[0]], labels[e[1]], b=x + t)
            for a in es[e]:
                a["b"] = x + t
    for i, j in es:
        ctx.eq("attributes of the edges", [dict(d) for d in net.edge(labels[i], labels[j])], es[(i, j)])
        ctx.eq("attributes of the in-edges", [dict(d) for d in net.in_edges(labels[j])[labels[i]]], es[(i, j)])
    ctx.check("no edges appear", len(list(net.edges)) == sum(len(e) for e in es.values()))


@harness(quick=[{"m": 3}], thorough=[{"m": 6}])
def equal_attributes(ctx, m):
    """edges with the same attributes are still separate edges, and nodes with the same attributes separate nodes"""
    net = ctx.ntm.Network()
    x = ctx.ints("x", 4)
    names = ["a", "b", "weight", "kind", "pos"][:ctx.choice("number of attributes", [0, 1, 2, 3, 4, 5])]
    given = {k: (v if i < 4 else "wire") for i, (k, v) in enumerate(zip(names, x + [0]))}
    # the caller's dict given to every edge and node
    pairs = [(0, 1), (1, 0), (1, 1), (0, 2)]
    for i, j in pairs:
        for _ in range(m):
            net.add_edge(i, j, **given)
    net.add_edge_bidir(2, 3, **given)
    for k in range(4):
        net.add_node(k, **given)
    (i, j), k = ctx.choice("edge", pairs), ctx.choice("index", range(m))
    y = ctx.int("y")
    net.update_edge(i, j, indices=[k], a=y, new=1)
    net.update_edge(2, 3, a=y + 1)
    node = ctx.choice("node", range(4))
    net.add_node(node, a=y)
    changed = dict(given, a=y, new=1)
    for e in pairs:
        ctx.eq("attributes of the edges", [dict(d) for d in net.edge(*e)], [changed if e == (i, j) and q == k else given for q in range(m)])
    ctx.eq("directions of a bidirectional edge", [dict(net.edge(2, 3)[0]), dict(net.edge(3, 2)[0])], [dict(given, a=y + 1), given])
    for q in range(4):
        want = dict(given, a=y) if q == node else given
        ctx.eq("node attributes", {a: net[q][a] for a in set(names) | {"a"} if a in net[q]}, want)
