"""C10: a network equals the sequence of operations applied to it."""
from sx.harness import harness
from .common import large_graph, multiset_eq

BOUNDS = ("all sequences of up to 4 operations (add_node, add_edge, add_edge_bidir, remove_node, del, remove_edge) on 2 labels "
          "and up to 3 on 3 labels (up to renaming of the labels; up to 3 on 2 labels that are arbitrary distinct values); one and two further operations on "
          "every multigraph of 2 nodes with up to 2 parallel edges per direction and every directed graph of 3 nodes; edge "
          "weights arbitrary; integer, string and tuple labels; "
          "15 operations on a graph of 12 nodes (thorough: 60 on 30); a hub with 40 (thorough: 120) neighbours.")

OUTSIDE = ("more labels and longer sequences; removing a node or edge that does not exist, which is an error the library does not "
           "specify further; editing the dictionaries that in_edges and edge return.")


class Model:
    def __init__(self):
        self.nodes, self.edges = [], {}

    def node(self, a):
        if a not in self.nodes:
            self.nodes.append(a)

    def edge(self, a, b, w):
        self.node(a)
        self.node(b)
        self.edges.setdefault((a, b), []).append({"w": w})

    def drop(self, a):
        self.nodes.remove(a)
        self.edges = {k: e for k, e in self.edges.items() if a not in k}


def ops_for(model, n, bidir=True):
    """the operations applicable to the model; labels are used in order (all labels are alike)"""
    used = len(model.nodes_ever)
    top = min(n, used + 1)
    out = [("add_node", a) for a in range(top)]
    for a in range(top):
        for b in range(min(n, max(top, a + 2))):
            if b >= top and a != top - 1:
                continue
            out.append(("add_edge", a, b))
            if bidir:
                out.append(("add_edge_bidir", a, b))
    out += [("remove_node", a) for a in model.nodes]
    out += [("del", a) for a in model.nodes[:1]]
    out += [("remove_edge", a, b) for a, b in sorted(model.edges)]
    return out


def apply_op(ctx, net, model, labels, op, k):
    ever = model.nodes_ever
    for a in op[1:]:
        if a not in ever:
            ever.append(a)
    L = lambda a: labels[a]
    if op[0] == "add_node":
        net.add_node(L(op[1]))
        model.node(op[1])
    elif op[0] in ("add_edge", "add_edge_bidir"):
        w = ctx.int("w%d" % k)
        _, a, b = op
        model.edge(a, b, w)
        if op[0] == "add_edge":
            net.add_edge(L(a), L(b), w=w)
        else:
            net.add_edge_bidir(L(a), L(b), w=w)
            model.edge(b, a, w)
    elif op[0] in ("remove_node", "del"):
        if op[0] == "del":
            del net[L(op[1])]
        else:
            net.remove_node(L(op[1]))
        model.drop(op[1])
    else:
        net.remove_edge(L(op[1]), L(op[2]))
        model.edges.pop((op[1], op[2]), None)


def compare(ctx, net, model, labels):
    n = len(labels)
    at = lambda x: next(i for i, l in enumerate(labels) if l is x or l == x)
    ctx.check("number of nodes", len(net) == len(model.nodes) and sorted(at(x) for x in net.nodes) == sorted(model.nodes))
    ctx.check("node tests", all((labels[a] in net.nodes) == (a in model.nodes) for a in range(n)))
    got = {}
    for i, j, attr in net.edges:
        got.setdefault((at(i), at(j)), []).append(dict(attr))
    ctx.check("edges with multiplicity", {k: len(e) for k, e in got.items()} == {k: len(e) for k, e in model.edges.items()})
    ctx.check("edge attributes", all(multiset_eq(ctx, got[k], model.edges[k]) for k in got))
    ctx.check("edge tests", all(net.has_edge(labels[a], labels[b]) == ((a, b) in model.edges)
                                for a in range(n) for b in range(n)))
    for a in model.nodes:
        ins = net.in_edges(labels[a])
        want = {i: model.edges[(i, j)] for i, j in model.edges if j == a}
        ctx.check("in-edges", sorted(at(x) for x in ins) == sorted(want))
        for i in want:
            ctx.check("in-edges and edge lookups", multiset_eq(ctx, [dict(x) for x in ins[labels[i]]], want[i]) and
                      multiset_eq(ctx, [dict(x) for x in net.edge(labels[i], labels[a])], want[i]))
        di = sum(len(e) for (i, j), e in model.edges.items() if j == a)
        do = sum(len(e) for (i, j), e in model.edges.items() if i == a)
        ctx.check("degrees", (net.in_degree(labels[a]), net.out_degree(labels[a]), net.degree(labels[a])) == (di, do, di + do))


def new(ctx, n, arbitrary=True):
    labels = [ctx.opaque("label%d" % i) for i in range(n)] if arbitrary else [["n0", "n1", "n2"][i] for i in range(n)]
    if arbitrary:
        ctx.distinct(labels)
    m = Model()
    m.nodes_ever = []
    return labels, ctx.ntm.Network(), m


@harness(quick=[{"n": 2, "length": 4, "first": f, "_weight": 5} for f in (0, 1, 2)] +
         [{"n": 2, "length": 3, "first": f, "arbitrary": True} for f in (0, 1, 2)] +
         [{"n": 3, "length": 3, "first": f, "_weight": 3} for f in (0, 1, 2)],
         thorough=[{"n": 2, "length": 5, "first": f, "_weight": 9} for f in (0, 1, 2)] +
                  [{"n": 3, "length": 4, "first": f, "_weight": 9} for f in (0, 1, 2)] +
                  [{"n": 3, "length": 3, "first": f, "arbitrary": True} for f in (0, 1, 2)])
def sequences(ctx, n, length, first, arbitrary=False):
    """every sequence of operations, compared with the multigraph they define"""
    labels, net, m = new(ctx, n, arbitrary)
    for k in range(length):
        if k and ctx.flag("stop%d" % k):
            break
        ops = ops_for(m, n)
        op = ops[0] if k == 0 and first == 0 else ctx.choice("op%d" % k, ops[1:] if k == 0 else ops)
        if k == 0 and first:
            ctx.assume((op[0] == "add_edge") == (first == 1))
        apply_op(ctx, net, m, labels, op, k)
    compare(ctx, net, m, labels)


@harness(quick=[{"n": 2, "multi": 2, "more": 1, "arbitrary": True}, {"n": 2, "multi": 1, "more": 2}, {"n": 3, "multi": 1, "more": 1, "_weight": 8}],
         thorough=[{"n": 2, "multi": 2, "more": 2, "_weight": 9}, {"n": 2, "multi": 3, "more": 1}])
def from_any_graph(ctx, n, multi, more, arbitrary=False):
    """any graph, then one or two operations"""
    labels, net, m = new(ctx, n, arbitrary)
    m.nodes_ever = list(range(n))
    for a in range(n):
        net.add_node(labels[a])
        m.node(a)
    for a in range(n):
        for b in range(n):
            k = ctx.choice("e%d%d" % (a, b), range(multi + 1))
            for i in range(k):
                w = ctx.int("w%d%d" % (a, b))
                net.add_edge(labels[a], labels[b], w=w)
                m.edge(a, b, w)
    for k in range(more):
        op = ctx.choice("op%d" % k, [o for o in ops_for(m, n, bidir=False) if n < 3 or o[0] != "add_edge" or o[1] <= o[2]])
        apply_op(ctx, net, m, labels, op, k)
    compare(ctx, net, m, labels)


@harness(quick=[{}])
def label_types(ctx):
    """string, tuple and mixed labels; n nodes made by the constructor"""
    ntm = ctx.ntm
    labels = ctx.choice("labels", [["a", "b", "ab"], [(0, 1), (1, 0), (0,)], [0, "0", (0,)], [-1, 0, 1]])
    net, m = ntm.Network(), Model()
    m.nodes_ever = [0, 1, 2]
    ws = ctx.ints("w", 4)
    for k, (a, b) in enumerate([(0, 1), (0, 1), (1, 1), (1, 2)]):
        net.add_edge(labels[a], labels[b], w=ws[k])
        m.edge(a, b, ws[k])
    for k in range(2):
        apply_op(ctx, net, m, labels, ctx.choice("op%d" % k, ops_for(m, 3, bidir=False)), k)
    compare(ctx, net, m, labels)


@harness(quick=[{}])
def constructed(ctx):
    """Network(n) has the nodes 0..n-1 and no edges"""
    n = ctx.int("n", 0, 6)
    net = ctx.ntm.Network(n)
    ctx.check("nodes", sorted(net.nodes) == list(range(int(n))) and len(net) == n)
    ctx.check("no edges", list(net.edges) == [])
    ctx.check("degrees", all(net.degree(i) == net.in_degree(i) == net.out_degree(i) == 0 for i in net.nodes))
    if n > 1:
        net.add_edge(0, 1)
        ctx.check("an edge", [(i, j) for i, j, _ in net.edges] == [(0, 1)] and net.degree(0) == 1 and net.degree(1) == 1)


@harness(quick=[{"n": 12, "ops": 15}], thorough=[{"n": 30, "ops": 60}])
def larger(ctx, n, ops):
    """a larger graph and a longer sequence of operations"""
    net, labels, es = large_graph(ctx, n)
    m = Model()
    m.nodes_ever, m.nodes, m.edges = list(range(n)), list(range(n)), es
    for e in m.edges.values():
        for a in e:
            del a["k"]
    first = ctx.choice("first", range(4))
    for k in range(ops):
        i, j = (k * 5 + first) % n, (k * k + 2 * first) % n
        kinds = ["add_edge", "remove_node", "add_edge_bidir", "remove_edge", "add_node", "add_edge", "del"]
        op = kinds[(k + first) % 7]
        if op in ("remove_node", "del"):
            i = m.nodes[i % len(m.nodes)] if m.nodes else None
        if op == "remove_edge" and m.edges:
            i, j = sorted(m.edges)[(i * n + j) % len(m.edges)]
        if i is not None:
            apply_op(ctx, net, m, labels, (op, i, j) if "edge" in op else (op, i), k)
    for x in net.nodes:
        for y, e in net.in_edges(x).items():
            for a in e:
                a.pop("k", None)
    compare(ctx, net, m, labels)


@harness(quick=[{"n": 40}], thorough=[{"n": 120}])
def hub(ctx, n):
    """a node with an edge to and from every other node and to itself; some of it removed again"""
    labels = list(range(n)) if ctx.flag("numbers") else ["n%d" % i for i in range(n)]
    net, m = ctx.ntm.Network(), Model()
    m.nodes_ever = []
    for k in range(n):
        apply_op(ctx, net, m, labels, ("add_edge_bidir", 0, k), k)
        if k % 5 == 0:
            apply_op(ctx, net, m, labels, ("add_edge", k, 0), n + k)
    compare(ctx, net, m, labels)
    last = ctx.choice("last", ["loop", "leaf", "edge", "hub", "nothing"])
    for k in range(3, n, 4):
        apply_op(ctx, net, m, labels, ("remove_edge", 0, k), k)
        apply_op(ctx, net, m, labels, ("remove_node", k - 1), k)
    if last == "loop":
        apply_op(ctx, net, m, labels, ("remove_edge", 0, 0), 0)
    elif last == "leaf":
        apply_op(ctx, net, m, labels, ("remove_node", n - 3), 0)
    elif last == "edge":
        apply_op(ctx, net, m, labels, ("remove_edge", n - 3, 0), 0)
    elif last == "hub":
        apply_op(ctx, net, m, labels, ("remove_node", 0), 0)
    compare(ctx, net, m, labels)
