"""C42: exported views of networks."""
import json
import re
from sx.harness import harness
from .common import large_graph

BOUNDS = ("graphs with 1 to 3 nodes with up to 2 parallel edges between every ordered pair and up to 3 self-loops (nodes added in any order, directed "
          "multigraphs; simple digraphs; undirected graphs) with fixed labels of one to three digits or texts; hypergraph configurations of up to 3 "
          "relations of 1 to 3 arbitrary nodes; lattices up to 5x4; "
          "graphs of 12 nodes (thorough: 40); graphs of 60 nodes (thorough: 200) with many self-loops and parallel edges, labels of 56 characters, numpy integers and floats; "
          "relations of 20 nodes, lattices of 1500 nodes.")

OUTSIDE = "how vis.js draws the page; labels that are neither numbers nor texts; labels holding markup."


TOKEN = re.compile(r"""\s*("(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|[\w.+-]+|.)""", re.S)


def tokens(html, var):
    """the JavaScript tokens within the parentheses of var <var> = new vis.DataSet(...)"""
    i = html.index("vis.DataSet(", html.index("var %s" % var)) + len("vis.DataSet(")
    out = []
    while True:
        m = TOKEN.match(html, i)
        if m.group(1) == ")":
            return out
        out.append(m.group(1))
        i = m.end()


def value(token):
    """a JavaScript text, number or boolean; None if it is none of these"""
    if token[0] in "'\"":
        return json.loads('"' + token[1:-1] + '"')
    try:
        return int(token)
    except ValueError:
        pass
    try:
        return float(token)
    except ValueError:
        return {"true": True, "false": False}.get(token)


def objects(toks):
    """the list of objects: each a dict of its fields"""
    if toks[0] != "[" or toks[-1] != "]":
        return None
    out, i, current = [], 1, None
    while i < len(toks) - 1:
        t = toks[i]
        if t == "{":
            current = {}
        elif t == "}":
            out.append(current)
            current = None
        elif t != ",":
            if current is None or toks[i + 1] != ":":
                return None
            current[t.strip("'\"")] = value(toks[i + 2])
            i += 2
        i += 1
    return out


def key(x):
    return type(x).__name__, x


def check_html(ctx, G, nodes, edges, directed=True):
    html = str(ctx.ntm.vis.get_html(G))
    ns = objects(tokens(html, "nodes"))
    ctx.check("a list of nodes", ns is not None and all(None not in n.values() for n in ns))
    ctx.check("every node once", sorted(map(key, (n["id"] for n in ns))) == sorted(map(key, nodes)))
    ctx.check("labels", all(n["label"] == n["id"] for n in ns))
    es = objects(tokens(html, "edges"))
    ctx.check("a list of edges", es is not None and all(None not in e.values() for e in es))
    got = sorted((key(e["from"]), key(e["to"])) for e in es)
    want = sorted((key(a), key(b)) for a, b in edges)
    if directed:
        ctx.check("every edge with its direction", got == want)
    else:
        ctx.check("every edge", sorted(tuple(sorted(e)) for e in got) == sorted(tuple(sorted(e)) for e in want))
    ctx.check("arrows", all(e["arrows"] == "to" for e in es))
    for k in set(nodes):
        sizes = [e.get("selfReferenceSize") for e in es if e["from"] == e["to"] == k]
        ctx.check("every self-loop with its own size", None not in sizes and len(set(sizes)) == len(sizes))
    ctx.check("only self-loops have a size", all(("selfReferenceSize" in e) == (e["from"] == e["to"]) for e in es))


@harness(quick=[{"n": 1, "multi": 3, "loops": 3}, {"n": 2, "multi": 2, "loops": 2}, {"n": 3, "multi": 1, "loops": 1}],
         thorough=[{"n": 2, "multi": 3, "loops": 3, "_weight": 5}, {"n": 3, "multi": 2, "loops": 1, "_weight": 9}])
def html(ctx, n, multi, loops):
    """directed multigraphs"""
    import networkx as nx
    labels = [[7, 12, 110], [0, 1, 2], [3, 2, 23]][int(ctx.int("labels", 0, 2)) if n < 3 else 0][:n]
    G = nx.MultiDiGraph()
    edges = []
    for k in labels:
        G.add_node(k)
    for i in labels:
        for j in labels:
            for _ in range(int(ctx.int("e", 0, loops if i == j else multi))):
                edges.append((i, j))
    for i, j in (edges[::-1] if ctx.flag("reverse") else edges):
        G.add_edge(i, j)
    check_html(ctx, G, labels, edges)


@harness(quick=[{"n": 3}], thorough=[{"n": 4, "_weight": 9}])
def html_simple(ctx, n):
    """simple graphs, directed and undirected"""
    import networkx as nx
    directed = ctx.flag("directed")
    G = nx.DiGraph() if directed else nx.Graph()
    labels = [5, 40, 11, 2][:n]
    G.add_nodes_from(labels)
    edges = []
    for a in range(n):
        for b in range(n):
            if (directed or a <= b) and ctx.flag("e"):
                edges.append((labels[a], labels[b]))
                G.add_edge(labels[a], labels[b])
    check_html(ctx, G, labels, edges, directed)


@harness(quick=[{}])
def shown(ctx):
    """show_network writes this view to the named file"""
    import os
    import tempfile
    import networkx as nx
    G = nx.MultiDiGraph()
    G.add_nodes_from([4, 9])
    for _ in range(int(ctx.int("e", 0, 2))):
        G.add_edge(4, 9)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "network.html")
        ctx.ntm.vis.show_network(G, name=path, is_notebook=True)
        with open(path) as f:
            text = f.read()
    ctx.check("the view of the graph", text == ctx.ntm.vis.get_html(G))


@harness(quick=[{}])
def html_texts(ctx):
    """labels that are texts"""
    labels = ctx.choice("labels", [["a", "b", "c"], ["node 7", "x: y", 'say "no"'], ["", "(1, 2)", "a\\b"], [3, "b", 2.5]])
    net = ctx.ntm.Network()
    for x in labels:
        net.add_node(x)
    edges = []
    for i, j in ((0, 1), (1, 0), (2, 2), (2, 0)):
        for _ in range(int(ctx.int("e", 0, 2))):
            net.add_edge(labels[i], labels[j])
            edges.append((labels[i], labels[j]))
    check_html(ctx, net.to_networkx(), labels, edges)


@harness(quick=[{}])
def html_network(ctx):
    """a netomaton network, through networkx"""
    net = ctx.ntm.Network()
    edges = []
    for k in (3, 0, 25):
        net.add_node(k)
    for i, j in ((3, 0), (0, 3), (0, 0), (25, 3)):
        for _ in range(int(ctx.int("e", 0, 2))):
            edges.append((i, j))
            net.add_edge(i, j)
    check_html(ctx, net.to_networkx(), [3, 0, 25], edges)


@harness(quick=[{"shape": s} for s in ([1], [2], [3], [1, 2], [2, 2], [3, 2], [3, 1], [2, 2, 2])], thorough=[{"shape": [3, 3, 2], "_weight": 9}, {"shape": [4, 3], "_weight": 5}])
def hypergraph(ctx, shape):
    """consecutive pairs of every relation are edges"""
    from .c06 import decided_eq
    config = [[ctx.opaque("n%d_%d" % (i, j), 0) for j in range(m)] for i, m in enumerate(shape)]
    conv = tuple if ctx.flag("tuples") else list
    G = ctx.ntm.vis.configuration_to_nx([conv(r) for r in config])
    ctx.check("a directed multigraph", G.is_directed() and G.is_multigraph())
    flat = [x for r in config for x in r]
    want = []
    for x in flat:
        if not any(decided_eq(x, y) for y in want):
            want.append(x)
    got = list(G.nodes)
    ctx.check("the nodes", len(got) == len(want) and all(any(decided_eq(x, y) for y in got) for x in want))
    pairs = [(r[i], r[i + 1]) for r in config for i in range(len(r) - 1)]
    rest = [(e[0], e[1]) for e in G.edges]
    ok = len(rest) == len(pairs)
    for a, b in pairs:
        for k, (c, d) in enumerate(rest):
            if decided_eq(a, c) and decided_eq(b, d):
                del rest[k]
                break
        else:
            ok = False
    ctx.check("the edges, parallel ones included", ok)


@harness(quick=[{"x": 5, "y": 4}], thorough=[{"x": 10, "y": 10}])
def lattice(ctx, x, y):
    """positions of a lattice"""
    a, b = int(ctx.int("x", 1, x)), int(ctx.int("y", 1, y))
    pos = ctx.ntm.vis.lattice_pos(a, b)
    ctx.check("one position for each node, in the order of the labels",
              len(pos) == a * b and all(tuple(pos[k]) == (k // b, k % b) for k in range(a * b)))


@harness(quick=[{"n": 12}], thorough=[{"n": 40}])
def larger(ctx, n):
    """larger graphs, directed multigraphs and undirected ones"""
    import networkx as nx
    net, labels, es = large_graph(ctx, n)
    edges = [(labels[i], labels[j]) for (i, j), e in es.items() for _ in e]
    if ctx.flag("multi"):
        check_html(ctx, net.to_networkx(), labels, edges)
    else:
        G = nx.Graph()
        G.add_nodes_from(labels)
        G.add_edges_from(edges)
        check_html(ctx, G, labels, list(G.edges), False)


@harness(quick=[{"n": 60}], thorough=[{"n": 200}])
def many_edges(ctx, n):
    """many nodes with self-loops and parallel edges, long texts and numbers of other types as labels"""
    import fractions
    import networkx as nx
    import numpy as np
    kind = ctx.choice("labels", ["int", "text", "int64", "float64"])
    of = {"int": int, "text": lambda i: "a node with a rather long name, the number of which is %d" % i, "int64": np.int64, "float64": lambda i: np.float64(i + 0.5)}[kind]
    plain = (lambda i: i) if kind in ("int", "int64") else (lambda i: i + 0.5) if kind == "float64" else of
    G = nx.MultiDiGraph()
    G.add_nodes_from(of(i) for i in range(n))
    edges = [(i, (i * i + 3) % n) for i in range(n)] + [(i, i) for i in range(0, n, 4)]
    extra = ctx.choice("extra", [(4, 4), (1, 4), (8, 3)])
    edges += [extra] * int(ctx.int("times", 0, 2))
    edges += [(0, 3), (0, 3), (n - 1, n - 1), (n - 1, n - 1)]
    for i, j in edges:
        G.add_edge(of(i), of(j))
    check_html(ctx, G, [plain(i) for i in range(n)], [(plain(i), plain(j)) for i, j in edges])


@harness(quick=[{"m": 20}])
def large_views(ctx, m):
    """relations of many nodes, positions of large lattices"""
    a, b = ctx.choice("shape", [(40, 30), (1, 1500), (35, 2)])
    pos = ctx.ntm.vis.lattice_pos(a, b)
    ctx.check("one position for each node, in the order of the labels",
              len(pos) == a * b and all(tuple(pos[k]) == (k // b, k % b) for k in range(a * b)))
    x = ctx.int("x", 1, 3)
    config = [list(range(m)), [5] * 10, list(range(m, 0, -1)), [1]] + [[i, i + 1, 2] for i in range(m)]
    config[0][m - 2] = x
    G = ctx.ntm.vis.configuration_to_nx(config)
    pairs = [(r[i], r[i + 1]) for r in config for i in range(len(r) - 1)]
    ctx.eq("the edges, parallel ones included", sorted((int(e[0]), int(e[1])) for e in G.edges), sorted((int(p), int(q)) for p, q in pairs))
    ctx.check("the nodes", {int(k) for k in G.nodes} == {int(k) for r in config for k in r})
