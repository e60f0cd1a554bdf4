"""C12: copies and compression."""
from sx.harness import harness
from .c10 import Model, apply_op, compare, ops_for
from .common import edges_of, graph_flags, large_graph

BOUNDS = ("every multigraph of 2 nodes with up to 2 parallel edges per direction and 3 nodes with every subset of 6 edges, arbitrary "
          "weights, node attributes (nested too), copied or compressed and decompressed, then one operation on the original or "
          "the copy; equality of pairs of graphs over 2 nodes that differ arbitrarily in edges, multiplicities, weights and "
          "node attributes, built in different orders; string and integer labels; "
          "a multigraph of 12 nodes (thorough: 40); 28 values of every kind msgpack represents (numbers of full precision and size, texts, bytes, nested values).")

OUTSIDE = ("attribute values msgpack does not represent as they are (tuples come back as lists); tuple labels (known finding) and "
           "the rotation system (known finding).")


def degrees(net):
    return {n: (net.in_degree(n), net.out_degree(n), net.degree(n)) for n in net.nodes}


def node_attrs(net):
    return [{k: x for k, x in net[n].items() if k not in ("in", "out", "incoming", "outgoing")} for n in net.nodes]


def twin(net, how):
    if how == "copy":
        return net.copy()
    return type(net).decompress(net.compress())


@harness(quick=[{"how": h, "n": n, "multi": m, "_weight": n} for h in ("copy", "compress") for n, m in ((2, 2), (3, 1))],
         thorough=[{"how": h, "n": 2, "multi": 3} for h in ("copy", "compress")])
def reproduces(ctx, how, n, multi):
    """the copy is the same network and stays the same when either is edited"""
    labels = ctx.choice("labels", [[2, 0, 1][:n], ["b", "a", "c"][:n]])
    m = Model()
    m.nodes_ever = list(range(n))
    net = ctx.ntm.Network()
    x, y = ctx.int("x"), ctx.int("y")
    net.add_node(labels[1], pos=[x, [y]], tag="t", nothing=None)
    m.node(1)
    for k, l in enumerate(labels):
        net.add_node(l)
        m.node(k)
    for a in range(n):
        for b in range(n):
            if n == 3 and (a, b) in ((0, 0), (2, 2), (1, 0)):
                continue
            for i in range(ctx.choice("e%d%d" % (a, b), range(multi + 1))):
                w = ctx.int("w%d%d" % (a, b))
                net.add_edge(labels[a], labels[b], w=w)
                m.edge(a, b, w)
    c = twin(net, how)
    ctx.check("same nodes in the same order", list(c.nodes) == list(net.nodes))
    ctx.check("same edges in the same order", [e[:2] for e in c.edges] == [e[:2] for e in net.edges])
    ctx.eq("same edge attributes", [dict(e[2]) for e in c.edges], [dict(e[2]) for e in net.edges])
    ctx.eq("same node attributes", node_attrs(c), node_attrs(net))
    ctx.check("same degrees", degrees(c) == degrees(net))
    ctx.check("equal", bool(c == net) and bool(net == c))
    compare(ctx, c, m, labels)
    # editing one never shows in the other
    edited, other = (net, c) if ctx.flag("edit_original") else (c, net)
    before = (list(other.nodes), edges_of(other), node_attrs(other), degrees(other))
    op = ctx.choice("op", [o for o in ops_for(m, n, bidir=False) if o[0] != "del" and (n == 2 or 0 in o[1:])] +
                    [("attr",), ("weight",), ("nested",)])
    if op[0] == "attr":
        edited.add_node(labels[1], tag="changed")
    elif op[0] == "weight":
        for i, j in {e[:2] for e in edited.edges}:
            edited.update_edge(i, j, w=77)
    elif op[0] == "nested":
        edited[labels[1]]["pos"][1].append(9)
    else:
        apply_op(ctx, edited, m, labels, op, 9)
        compare(ctx, edited, m, labels)
    ctx.check("the other is not changed", (before[0], before[3]) == (list(other.nodes), degrees(other)))
    ctx.eq("the other is not changed", [edges_of(other), node_attrs(other)], [before[1], before[2]])


@harness(quick=[{"_weight": 5}])
def equality(ctx):
    """equal exactly if nodes, attributes and edges are the same, whatever the order they were added in"""
    nets, descr = [], []
    for g in range(2):
        net = ctx.ntm.Network()
        order = [0, 1, 2] if g == 0 or ctx.flag("order") else [2, 1, 0]
        for n in order:
            net.add_node(n)
        tag = ctx.int("tag%d" % g)
        if ctx.flag("tagged%d" % g):
            net.add_node(0, tag=tag)
            d = [("tag", tag)]
        else:
            d = []
        es = []
        for e in [(0, 1), (0, 2), (1, 1)] if g == 0 else [(1, 1), (0, 2), (0, 1)]:
            k = ctx.choice("g%d_e%d%d" % (g, e[0], e[1]), [0, 1, 2] if e == (0, 1) else [0, 1])
            ws = [ctx.int("g%d_w%d%d" % (g, e[0], e[1])) for _ in range(k)]
            for w in ws:
                net.add_edge(*e, w=w)
            if ws:
                es.append((e, ws))
        if g == 1 and ctx.flag("extra_node"):
            net.add_node(3)
            d.append("extra")
        nets.append(net)
        descr.append((d, sorted(es, key=lambda x: x[0])))
    from sx import values as v
    want = v.deep_eq(descr[0], descr[1])
    got = bool(nets[0] == nets[1])
    ctx.check("equality", want if got else ctx.neg(want))
    ctx.check("symmetric", bool(nets[1] == nets[0]) == got)
    ctx.check("reflexive", bool(nets[0] == nets[0]))
    ctx.check("different exactly if not equal", bool(nets[0] != nets[1]) != got)
    other = [None, 0, "x", (), nets[0].to_dict(), [nets[0]]][len(descr[0][1]) + len(descr[1][1]) - 1]
    ctx.check("not equal to anything else", not (nets[0] == other) and nets[0] != other and not (other == nets[0]))


@harness(quick=[{}], known=True)
def rotation_of_copy(ctx):
    """the rotation system is part of the network"""
    net = ctx.ntm.Network()
    for i in range(3):
        net.add_edge(i, i)
        net.add_edge(i, (i + 1) % 3)
    net.rotation_system = {0: [2, 0], 1: [0, 1], 2: [1, 2]}
    c = twin(net, ctx.choice("how", ["copy", "compress"]))
    ctx.check("the copy has the rotation system", c.rotation_system == net.rotation_system)


@harness(quick=[{}], known=True)
def tuple_labels_copy(ctx):
    """tuple labels"""
    net = ctx.ntm.Network()
    net.add_edge((0, 0), (0, 1), w=ctx.int("w"))
    try:
        c = twin(net, ctx.choice("how", ["copy", "compress"]))
    except TypeError:
        ctx.check("a network with tuple labels can be copied", False)
        return
    ctx.check("a network with tuple labels can be copied", list(c.nodes) == list(net.nodes))


@harness(quick=[{"n": 12, "how": h} for h in ("copy", "compress")], thorough=[{"n": 40, "how": h} for h in ("copy", "compress")])
def larger(ctx, n, how):
    """larger networks"""
    net, labels, es = large_graph(ctx, n)
    for k, x in enumerate(labels):
        if k % 3:
            net.add_node(x, tag=ctx.int("tag%d" % k), deep={"a": [k, "text", None, {"b": ctx.int("deep%d" % k)}]})
    c = twin(net, how)
    ctx.check("same nodes in the same order", list(c.nodes) == list(net.nodes) and set(c.nodes) == set(labels))
    ctx.check("same edges in the same order", [e[:2] for e in c.edges] == [e[:2] for e in net.edges])
    ctx.eq("same edge attributes", [dict(e[2]) for e in c.edges], [dict(e[2]) for e in net.edges])
    ctx.eq("same node attributes", node_attrs(c), node_attrs(net))
    ctx.check("same degrees", degrees(c) == degrees(net))
    ctx.check("equal", bool(c == net) and bool(net == c))
    edited, other = (net, c) if ctx.flag("edit_original") else (c, net)
    before = (list(other.nodes), edges_of(other), node_attrs(other), degrees(other))
    edited.remove_node(labels[3])
    edited.add_edge(labels[0], "new", w=1)
    for e in list(edited.edges)[::2]:
        edited.update_edge(e[0], e[1], w=5)
    edited[labels[1]]["deep"]["a"][3]["b"] = 99
    ctx.check("different", not bool(c == net))
    ctx.check("the other is not changed", (before[0], before[3]) == (list(other.nodes), degrees(other)))
    ctx.eq("the other is not changed", [edges_of(other), node_attrs(other)], [before[1], before[2]])


@harness(quick=[{"n": 2}, {"n": 30}])
def values(ctx, n):
    """attribute values of every kind: numbers of full precision and size, texts, nested values"""
    import math
    some = [0.1, -1 / 3, 1e300, 5e-324, 2.0, 0.0, -0.0, math.inf, 2 ** 63, -2 ** 63, 2 ** 64 - 1, 255, 256, -129, True, False, None, "", "text", "\u00e9\u4e16", "x" * 300, b"\x00\xff",
            [], {}, [1, [2.5, ["deep"]]], {"a": {"b": [0.7]}}, 16777217, 123456789.125]
    kind, how = ctx.choice("value", range(len(some))), ctx.choice("how", ["copy", "compress"])
    v = some[kind]
    net = ctx.ntm.Network(n)
    x = ctx.int("x")
    net.add_edge(0, 1, weight=v, other=x)
    net.add_edge(1, 1)
    net.add_edge(0, 1, weight=[v, x])
    net.add_node(1, tag=v)
    net.add_node(-7, tag={"a": v})
    net.add_edge("a text", -7, value=v)
    c = twin(net, how)
    same = lambda a, b: type(a) is type(b) and a == b and repr(a) == repr(b)
    ctx.check("same nodes in the same order", list(c.nodes) == list(net.nodes))
    ctx.check("same values", same(c.edge(0, 1)[0]["weight"], v) and same(c.edge(0, 1)[1]["weight"][0], v) and same(c[1]["tag"], v) and same(c[-7]["tag"], {"a": v}) and
              same(c.edge("a text", -7)[0]["value"], v))
    ctx.eq("same attributes", [c.edge(0, 1)[0]["other"], c.edge(0, 1)[1]["weight"][1]], [x, x])
    ctx.check("equal", bool(c == net) and bool(net == c) and degrees(c) == degrees(net))
