"""C14: NetworkX."""
from sx.harness import harness
from .common import edges_of, large_graph

BOUNDS = ("attributes that are None, falsy, containers or oddly named; every multigraph of 2 nodes with up to 2 parallel edges per direction and every directed graph of 3 nodes, added in two "
          "orders, arbitrary edge attributes (also named key), node attributes; directed NetworkX graphs and multigraphs over 2 "
          "and 3 nodes with arbitrary attributes; "
          "a multigraph of 12 nodes (thorough: 40).")

OUTSIDE = "undirected NetworkX graphs; attributes named like the fields the library keeps in a node (in, out, incoming, outgoing)."


def attr(ctx, name):
    return {"weight": ctx.int("w" + name), "key": ctx.int("k" + name)} if ctx.flag("two" + name) else {"weight": ctx.int("w" + name)}


@harness(quick=[{"n": 2, "multi": 2, "back": b} for b in (False, True)] + [{"n": 3, "multi": 1, "back": b, "_weight": 3} for b in (False, True)])
def there_and_back(ctx, n, multi, back):
    """same nodes, attributes and edges in NetworkX, and an equal network from it"""
    import networkx as nx
    ntm = ctx.ntm
    labels = [3, "a", (1, 2)][:n]
    net = ntm.Network()
    order = labels[::-1] if back else labels
    for l in order:
        net.add_node(l)
    natt = {labels[0]: {"color": ctx.int("color")}, labels[1]: {"a": ctx.int("a"), "b": "text"}}
    for l, d in natt.items():
        net.add_node(l, **d)
    model = {}
    pairs = [(i, j) for i in labels for j in labels]
    for k, (i, j) in enumerate(pairs[::-1] if back else pairs):
        for r in range(ctx.choice("e%d" % k, range(multi + 1))):
            d = {"weight": ctx.int("w%d_%d" % (k, r))}
            if r or k % 3 == 0:
                d["key"] = ctx.int("k%d_%d" % (k, r))
            net.add_edge(i, j, **d)
            model.setdefault((i, j), []).append(dict(d))
    G = net.to_networkx()
    ctx.check("a directed multigraph", G.is_directed() and G.is_multigraph())
    ctx.check("nodes", len(G) == n and set(G.nodes) == set(labels))
    ctx.eq("node attributes", [dict(G.nodes[l]) for l in labels], [natt.get(l, {}) for l in labels])
    got = {}
    for i, j, d in G.edges(data=True):
        got.setdefault((i, j), []).append(dict(d))
    ctx.check("edges with multiplicity", {k: len(x) for k, x in got.items()} == {k: len(x) for k, x in model.items()})
    ctx.eq("edge attributes", [got[k] for k in model], [model[k] for k in model])
    again = ntm.Network.from_networkx(G)
    ctx.check("an equal network comes back", bool(again == net) and bool(net == again))
    ctx.check("nodes come back", set(again.nodes) == set(labels) and len(again) == n)
    back_edges = edges_of(again)
    ctx.check("edges come back", set(back_edges) == set(model))
    ctx.eq("edge attributes come back", [back_edges[k] for k in model], [model[k] for k in model])
    # the graph is separate from the network
    if model:
        i, j = sorted(model, key=str)[0]
        for d in G.get_edge_data(i, j).values():
            d["weight"] = 99
            d["new"] = 1
    G.add_edge(labels[0], "new")
    G.nodes[labels[0]]["color"] = 99
    kept = edges_of(net)
    ctx.check("editing the graph leaves the network", set(kept) == set(model) and len(net) == n)
    ctx.eq("editing the graph leaves the network", [kept[k] for k in model] + [net[labels[0]]["color"]],
           [model[k] for k in model] + [natt[labels[0]]["color"]])


@harness(quick=[{"multigraph": False}, {"multigraph": True}])
def from_graph(ctx, multigraph):
    """a network made from a directed graph"""
    import networkx as nx
    ntm = ctx.ntm
    G = nx.MultiDiGraph() if multigraph else nx.DiGraph()
    labels = ["x", 5, 0]
    G.add_node("x", a=ctx.int("a"))
    G.add_node(5)
    G.add_node(0, b=ctx.int("b"), c="text")
    model = {}
    for k, (i, j) in enumerate([(i, j) for i in labels for j in labels if (i, j) != (5, "x")]):
        for r in range(ctx.choice("e%d" % k, range((3 if k in (0, 1) and multigraph else 2)))):
            d = {"weight": ctx.int("w%d_%d" % (k, r))} if k % 2 else {}
            G.add_edges_from([(i, j, d)])
            model.setdefault((i, j), []).append(dict(d))
    net = ntm.Network.from_networkx(G)
    ctx.check("nodes", len(net) == 3 and set(net.nodes) == set(labels))
    got = edges_of(net)
    ctx.check("edges with multiplicity", {k: len(x) for k, x in got.items()} == {k: len(x) for k, x in model.items()})
    ctx.eq("edge attributes", [got[k] for k in model], [model[k] for k in model])
    ctx.eq("node attributes", [{k: x for k, x in net[l].items() if k in "abc"} for l in labels], [dict(G.nodes[l]) for l in labels])
    ctx.check("degrees", all((net.in_degree(l), net.out_degree(l)) == (G.in_degree(l), G.out_degree(l)) for l in labels))
    ctx.check("an edge that is not there", all(net.has_edge(i, j) == G.has_edge(i, j) for i in labels for j in labels))


@harness(quick=[{"n": 12}], thorough=[{"n": 40}])
def larger(ctx, n):
    """larger networks"""
    ntm = ctx.ntm
    net, labels, es = large_graph(ctx, n)
    for k, x in enumerate(labels):
        if k % 3:
            net.add_node(x, color=ctx.int("color%d" % k))
    G = net.to_networkx()
    ctx.check("nodes", set(G.nodes) == set(labels) and len(G) == n)
    ctx.eq("node attributes", [dict(G.nodes[x]) for x in labels], [{"color": net[x]["color"]} if k % 3 else {} for k, x in enumerate(labels)])
    again = ntm.Network.from_networkx(G)
    for what, got in (("NetworkX", [(a, b, d) for a, b, d in G.edges(data=True)]), ("back", [(a, b, d) for a, b, d in again.edges])):
        by = {}
        for a, b, d in got:
            by.setdefault((labels.index(a), labels.index(b)), []).append(dict(d))
        ctx.check(what + ": edges with multiplicity", {k: len(x) for k, x in by.items()} == {k: len(x) for k, x in es.items()})
        ctx.eq(what + ": edge attributes", [by[k] for k in es], [es[k] for k in es])
    ctx.check("an equal network comes back", bool(again == net) and bool(net == again) and set(again.nodes) == set(labels))
    ctx.check("degrees", all((again.in_degree(x), again.out_degree(x), again.degree(x)) == (net.in_degree(x), net.out_degree(x), net.degree(x)) for x in labels))


@harness(quick=[{}])
def odd_attributes(ctx):
    """attributes that are None, falsy, containers or named oddly, on nodes and edges"""
    ntm = ctx.ntm
    x = ctx.choice("value", [None, 0, False, "", [], {}, (), [None], {"a": None}, 0.0, "None", b"", float("inf"), ctx.int("x")])
    name = ctx.choice("name", ["a", "weight", "key", "label", "data", "class", "0", "a b", ""])
    net = ntm.Network()
    net.add_node("u", **{name: x})
    net.add_edge("u", "v", **{name: x})
    net.add_edge("u", "v")
    net.add_edge("v", "u", **({name: x, "other": None} if name != "other" else {}))
    G = net.to_networkx()
    ctx.check("nodes", set(G.nodes) == {"u", "v"})
    ctx.eq("node attributes", [dict(G.nodes["u"]), dict(G.nodes["v"])], [{name: x}, {}])
    by = lambda edges: sorted(((i, j, len(d), d) for i, j, d in edges), key=lambda e: e[:3])
    want = [("u", "v", 0, {}), ("u", "v", 1, {name: x}), ("v", "u", 2, {name: x, "other": None})]
    ctx.eq("edges", by((i, j, dict(d)) for i, j, d in G.edges(data=True)), want)
    again = ntm.Network.from_networkx(G)
    ctx.eq("edges come back", by((i, j, dict(d)) for i, j, d in again.edges), want)
    ctx.check("the attribute comes back", name in again["u"] and name not in again["v"])
    ctx.eq("node attributes come back", again["u"][name], x)
    ctx.check("an equal network comes back", bool(again == net) and bool(net == again))
