"""Reference models and builders shared by the harnesses (public API of netomaton only)."""


def graph_flags(ctx, nodes, self_loops=True, name="e", multi=1):
    """Every subset of directed edges (with multiplicity up to multi), each explored on its own path."""
    edges = []
    for a, i in enumerate(nodes):
        for b, j in enumerate(nodes):
            if i is j and not self_loops:
                continue
            if multi == 1:
                k = 1 if ctx.flag("%s_%d_%d" % (name, a, b)) else 0
            else:
                k = ctx.choice("%s_%d_%d" % (name, a, b), range(multi + 1))
            edges += [(i, j)] * k
    return edges


def build(ctx, nodes, edges, weights=None):
    """edges: [(i, j)] added in this order, weights: one dict of attributes each"""
    net = ctx.ntm.Network()
    for n in nodes:
        net.add_node(n)
    for k, (i, j) in enumerate(edges):
        net.add_edge(i, j, **(weights[k] if weights else {}))
    return net


def in_neighbours(nodes, edges):
    """node -> list of distinct in-neighbours"""
    out = {n: [] for n in nodes}
    for i, j in edges:
        if not any(i is x or i == x for x in out[j]):
            out[j].append(i)
    return out


def edge_list(net):
    """the multiset of edges as a sorted-independent list of (i, j, attributes)"""
    return [(i, j, dict(a)) for i, j, a in net.edges]


def multiset_eq(ctx, a, b):
    """Two lists are equal as multisets: greedy matching, deciding equalities by path."""
    from sx import values as v
    if len(a) != len(b):
        return False
    rest = list(b)
    for x in a:
        for k, y in enumerate(rest):
            c = v.cond_term(v.deep_eq(x, y))
            if not isinstance(c, bool):
                c = bool(v.mkbool(c))
            if c:
                del rest[k]
                break
        else:
            return False
    return True


def acts(trajectory):
    return [s.activities for s in trajectory]


class UF:
    """An arbitrary rule: an uninterpreted function for every number of arguments."""

    def __init__(self, ctx, name, lo=None, hi=None):
        self.ctx, self.name, self.lo, self.hi, self.f = ctx, name, lo, hi, {}

    def __call__(self, *args):
        n = len(args)
        if n not in self.f:
            self.f[n] = self.ctx.fn("%s_%d" % (self.name, n), n, self.lo, self.hi)
        return self.f[n](*args)


def edges_of(net):
    """(i, j) -> the attribute dicts of its parallel edges, in order"""
    out = {}
    for i, j, a in net.edges:
        out.setdefault((i, j), []).append(dict(a))
    return out


def same_network(ctx, label, net, nodes, edges):
    """net has exactly these nodes and these edges ((i, j) -> list of attributes); labels are plain values"""
    ctx.check(label + ": nodes", len(list(net.nodes)) == len(nodes) and set(net.nodes) == set(nodes))
    got = edges_of(net)
    want = {k: e for k, e in edges.items() if e}
    ctx.check(label + ": edges", set(got) == set(want) and all(len(got[k]) == len(want[k]) for k in want))
    ctx.eq(label + ": edge attributes", [got[k] for k in sorted(want, key=str)],
           [want[k] for k in sorted(want, key=str)])


def same_activities(ctx, label, got, want):
    """got, want: dicts from plain labels to (symbolic) activities"""
    ctx.check(label + ": nodes", got is not None and len(got) == len(want) and set(got) == set(want))
    ks = sorted(want, key=str)
    ctx.eq(label, [got[k] for k in ks], [want[k] for k in ks])


# activities, states and inputs are arbitrary values: falsy ones, containers, ones that compare equal to others
ODD = [None, False, 0.0, "", (), [], {}, True, "x", (0,), [0], 10 ** 30, -1.5, b"", frozenset()]
ODD_PACKED = [None, False, 0.0, "", [], {}, True, "x", [0], -1.5, b"", [[]], {"": None}, 2 ** 63, -2 ** 63]


def same_value(a, b):
    """equal and of the same type, in containers too"""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_value(a[k], b[k]) for k in a)
    return a == b


def same_map(a, b):
    return a is not None and len(a) == len(b) and all(k in a and same_value(a[k], b[k]) for k in b)


class Odd:
    """values[shift + ...]: every place sees every value as the solver-chosen shift varies"""

    def __init__(self, ctx, values=ODD, name="shift"):
        self.ctx, self.values = ctx, values
        self.shift = int(ctx.int(name, 0, len(values) - 1))

    def __call__(self, kind, t=0, k=0):
        v = self.values[(self.shift + {"s": 0, "f": 1, "p": 4, "i": 7, "past": 2, "new": 5}[kind] + 2 * t + 5 * k) % len(self.values)]
        return [0] if v == [0] and type(v) is list else dict(v) if type(v) is dict else v


def odd_evolution(ctx, perturb=False, inputs=None, past=0, order="ACTIVITIES_FIRST", topology=False, memoize=False, nodes=(0, 1, 2),
                  steps=4, packed=False, edges=None, **kw):
    """an evolution whose activities, inputs and past conditions are odd values; compares everything that is seen and recorded"""
    ntm = ctx.ntm
    nodes = list(nodes)
    n = len(nodes)
    odd = Odd(ctx, ODD_PACKED if packed else ODD)
    at = {x: i for i, x in enumerate(nodes)}
    edges = [(nodes[i], nodes[(i + 1) % n]) for i in range(n)] + [(nodes[0], nodes[0])] if edges is None else edges
    net = build(ctx, nodes, edges)
    hist = {-1 - i: {x: odd("past", i, at[x]) for x in nodes} for i in range(past)}
    hist[0] = {x: odd("s", 0, at[x]) for x in nodes}
    for t in range(1, steps):
        hist[t] = {x: odd("p" if perturb else "f", t, at[x]) for x in nodes}
    calls, pcalls, tcalls = [], [], []

    def given(t):
        """what is passed as the input of time t and what the nodes get"""
        scalars = [v for v in (False, 0.0, -1.5, 0, True)]
        if t % 2:
            row = [odd("i", t, k) for k in range(n)]
            return row, dict(zip(nodes, row))
        v = scalars[(odd.shift + t) % len(scalars)]
        return v, {x: v for x in nodes}

    def rule(c):
        t, x = c.timestep, c.node_label
        calls.append((t, x))
        prev = hist[t - 1]
        ctx.check("the rule sees the previous activities", same_map(c.activities, prev) and same_value(c.current_activity, prev[x]) and
                  len(c.neighbour_labels) == len(c.neighbourhood_activities) and
                  all(same_value(a, prev[l]) and same_value(c.activity_of(l), prev[l])
                      for l, a in zip(c.neighbour_labels, c.neighbourhood_activities)))
        ctx.check("the rule sees its input", same_value(c.input, given(t)[1][x] if inputs else None))
        if past:
            ctx.check("the rule sees the past activities", len(c.past_activities) == past and
                      all(same_value(c.past_activity_of(y, -1 - i), hist[t - 2 - i][y]) for i in range(past) for y in nodes))
        else:
            ctx.check("no past activities", c.past_activities is None)
        return odd("f", t, at[x])

    def perturbation(c):
        pcalls.append((c.timestep, c.node_label))
        ctx.check("the perturbation sees the computed activity and the input", same_value(c.node_activity, odd("f", c.timestep, at[c.node_label])) and
                  same_value(c.input, given(c.timestep)[1][c.node_label] if inputs else None))
        return odd("p", c.timestep, at[c.node_label])

    def topo(c):
        tcalls.append(c.timestep)
        ctx.check("the topology rule sees the activities", same_map(c.activities, hist[c.timestep - (order != "ACTIVITIES_FIRST")]))
        return c.network

    def asked(t, a, g):
        ctx.check("the input function sees the activities", same_map(a, hist[t - 1]))
        return given(t)[0] if t < steps else None

    class Key(ntm.MemoizationKey):
        def to_key(self, c):
            return (c.timestep, c.node_label)
    if inputs:
        kw["input"] = asked if inputs == "function" else [given(t)[0] for t in range(1, steps)]
    else:
        kw["timesteps"] = steps
    if past:
        kw["past_conditions"] = [dict(hist[-past + i]) for i in range(past)]
    if perturb:
        kw["perturbation"] = perturbation
    if topology:
        kw["topology_rule"] = topo
    if memoize:
        kw.update(memoize=True, memoization_key=Key())
    traj = ntm.evolve(network=net, initial_conditions=dict(hist[0]), activity_rule=rule, update_order=ntm.UpdateOrder[order], **kw)
    every = sorted((t, k) for t in range(1, steps) for k in range(n))
    ctx.check("number of states", len(traj) == steps)
    ctx.check("one call per node and timestep", sorted((t, at[x]) for t, x in calls) == every)
    if perturb:
        ctx.check("one perturbation per node and timestep", sorted((t, at[x]) for t, x in pcalls) == every)
    if topology:
        ctx.check("one topology rule call per timestep", tcalls == list(range(1, steps)))
    for t in range(steps):
        if t == 0 or kw.get("persist_activities", True):
            ctx.check("the recorded activities", same_map(traj[t].activities, hist[t]))
        else:
            ctx.check("activities are not persisted", traj[t].activities is None)
        if t == 0 or kw.get("persist_network", True):
            g = traj[t].network
            ctx.check("the recorded network", set(g.nodes) == set(nodes) and sorted(map(repr, [(i, j) for i, j, _ in g.edges])) ==
                      sorted(map(repr, edges)))
        else:
            ctx.check("the network is not persisted", traj[t].network is None)
    return traj


def long_evolution(ctx, n=12, steps=12, order="ACTIVITIES_FIRST", inputs=None, past=0, perturb=False, memoize=False, topology=False,
                   rotation=False, labels=None, compression=False, persist_activities=True, persist_network=True, copy_network=True):
    """A long evolution of a larger network (many timesteps and nodes, arbitrary activities, weights and rules on one path), compared
    with a fold over the rules; what every call sees and what every state records."""
    ntm = ctx.ntm
    nodes = list(range(n)) if labels is None else list(labels)
    at = {x: i for i, x in enumerate(nodes)}
    pairs = [(i, (i + 1) % n) for i in range(n)] + [((i * 5 + 3) % n, i) for i in range(0, n, 2)] + [(2, 2), (0, n - 1)]
    pairs = [e for e in dict.fromkeys(pairs) if max(e) < n]
    es = {(nodes[i], nodes[j]): [{"w": ctx.int("w%d_%d" % (i, j))}] for i, j in pairs}
    first = next(iter(es))
    es[first] = es[first] + [{"w": ctx.int("parallel")}]
    net = build(ctx, nodes, [e for e in es for _ in es[e]], [dict(a) for e in es for a in es[e]])
    ring = None
    if rotation:
        ring = {x: tuple(sorted((e[0] for e in es if e[1] == x), key=lambda y: -((at[y] * 7) % 11))) for x in nodes}
        net.rotation_system = ring
    init = ctx.ints("s", n)
    hist = {0: dict(zip(nodes, init))}
    for i in range(past):
        hist[i - past] = dict(zip(nodes, ctx.ints("past%d_" % i, n)))
    nets = {0: es}
    f, p, g, h = UF(ctx, "rule"), UF(ctx, "perturb"), UF(ctx, "input"), UF(ctx, "weight")
    calls, pcalls, tcalls = [], [], []
    vals = {t: [g(t, k) for k in range(n)] for t in range(1, steps)} if inputs else None

    def args_of(x, t, cur, inp, older, neigh):
        out = [at[x], t, cur] + ([inp] if inputs else []) + [older[i][y] for i in range(past) for y in nodes[:2]]
        for y, a, ws in neigh if rotation else sorted(neigh, key=lambda e: at[e[0]]):
            out += [at[y], a] + list(ws)
        return out

    def rule(c):
        neigh = [(l, a, [e["w"] for e in c.connection_states[l]]) for l, a in zip(c.neighbour_labels, c.neighbourhood_activities)]
        calls.append((c.timestep, c.node_label, dict(c.activities), c.input, c.past_activities is None))
        return f(*args_of(c.node_label, c.timestep, c.current_activity, c.input, c.past_activities, neigh))

    def perturbation(c):
        pcalls.append((c.timestep, c.node_label, c.input))
        return p(c.timestep, at[c.node_label], c.node_activity)

    def changed(t, e, acts):
        """the edges after the topology rule of timestep t"""
        new = {k: [dict(a) for a in v] for k, v in e.items()}
        i, j = nodes[t % n], nodes[(5 * t + 2) % n]
        if (i, j) in new:
            del new[(i, j)]
        else:
            new[(i, j)] = [{"w": h(t, acts[i])}]
        k = sorted(new, key=lambda x: (at[x[0]], at[x[1]]))[t % len(new)]
        new[k] = [{"w": h(t, acts[k[1]], a["w"])} for a in new[k]]
        return new

    def topo(c):
        tcalls.append((c.timestep, dict(c.activities)))
        old = edges_of(c.network)
        new = changed(c.timestep, old, c.activities)
        if not copy_network:
            return build(ctx, nodes, [e for e in new for _ in new[e]], [a for e in new for a in new[e]])
        net = c.network
        for e in old:
            if e not in new:
                net.remove_edge(*e)
        for e, v in new.items():
            if e not in old:
                net.add_edge(*e, **v[0])
            else:
                for i, a in enumerate(v):
                    net.update_edge(*e, indices=[i], **a)
        return net

    class Key(ntm.MemoizationKey):
        def to_key(self, c):
            return (c.timestep, c.node_label)
    kw = dict(compression=compression, persist_activities=persist_activities, persist_network=persist_network, copy_network=copy_network)
    row = lambda t: vals[t] if t % 3 else vals[t][0]
    asked = []
    if inputs == "list":
        kw["input"] = [row(t) for t in range(1, steps)]
    elif inputs:
        def given(t, a, w):
            asked.append((t, dict(a)))
            return row(t) if t < steps else None
        kw["input"] = given
    else:
        kw["timesteps"] = steps
    if inputs and labels is not None:
        raise ValueError("rows of inputs are for consecutive labels")
    if past:
        kw["past_conditions"] = [dict(hist[i - past]) if i % 2 else list(hist[i - past].values()) if labels is None else dict(hist[i - past])
                                 for i in range(past)]
    if perturb:
        kw["perturbation"] = perturbation
    if topology:
        kw["topology_rule"] = topo
    if memoize:
        kw.update(memoize=True, memoization_key=Key())
    traj = ntm.evolve(network=net, initial_conditions=list(init) if labels is None else dict(hist[0]), activity_rule=rule,
                      update_order=ntm.UpdateOrder[order], **kw)

    def step(t, e):
        new = {}
        for x in nodes:
            inp = None if not inputs else vals[t][at[x]] if t % 3 else vals[t][0]
            neigh = [(y, hist[t - 1][y], [a["w"] for a in e[(y, x)]]) for y in
                     (ring[x] if rotation else [i for i, j in e if j == x])]
            v = f(*args_of(x, t, hist[t - 1][x], inp, [hist[t - 1 - past + i] for i in range(past)], neigh))
            new[x] = p(t, at[x], v) if perturb else v
        return new
    for t in range(1, steps):
        e = nets[t - 1]
        if order == "ACTIVITIES_FIRST":
            hist[t] = step(t, e)
            nets[t] = changed(t, e, hist[t]) if topology else e
        else:
            nets[t] = changed(t, e, hist[t - 1]) if topology else e
            hist[t] = step(t, nets[t] if order == "TOPOLOGY_FIRST" else e)
    every = sorted((t, k) for t in range(1, steps) for k in range(n))
    ctx.check("number of states", len(traj) == steps)
    ctx.check("one call per node and timestep", sorted((c[0], at[c[1]]) for c in calls) == every)
    for t, x, acts, inp, none in calls:
        ctx.eq("the rule sees the previous activities", [acts[y] for y in nodes], [hist[t - 1][y] for y in nodes])
        ctx.check("past activities", none == (past == 0))
        if not inputs:
            ctx.check("no input", inp is None)
    if perturb:
        ctx.check("one perturbation per node and timestep", sorted((c[0], at[c[1]]) for c in pcalls) == every)
        if inputs:
            ctx.eq("the perturbation sees the input", [i for _, _, i in pcalls],
                   [vals[t][at[x]] if t % 3 else vals[t][0] for t, x, _ in pcalls])
    if topology:
        ctx.check("one topology rule call per timestep", [t for t, _ in tcalls] == list(range(1, steps)))
        for t, acts in tcalls:
            same_activities(ctx, "the topology rule sees the activities", acts, hist[t if order == "ACTIVITIES_FIRST" else t - 1])
    if inputs == "function":
        ctx.check("the input function is asked once per timestep", [t for t, _ in asked] == list(range(1, steps + 1)))
        for t, acts in asked:
            same_activities(ctx, "the input function sees the activities", acts, hist[t - 1])
    for t in range(steps):
        if t == 0 or persist_activities:
            same_activities(ctx, "activities", traj[t].activities, hist[t])
        else:
            ctx.check("activities are not persisted", traj[t].activities is None)
        if t == 0 or persist_network:
            same_network(ctx, "network", traj[t].network, nodes, nets[t])
        else:
            ctx.check("the network is not persisted", traj[t].network is None)
    same_network(ctx, "the caller's network", net, nodes, es)
    return traj


def large_graph(ctx, n, weight="w"):
    """a larger multigraph with arbitrary weights: labels in no order, parallel edges, self-loops, isolated nodes
    -> network, labels, {(i, j): [attributes]}"""
    kind = ctx.choice("label_kind", ["int", "str", "mixed"])
    num = [(i * 7 + 3) % n if n % 7 else (i * 5 + 3) % n for i in range(n)]
    labels = [x if kind == "int" else "n%d" % x if kind == "str" else (x if x % 3 else str(x)) for x in num]
    net, es = ctx.ntm.Network(), {}
    for x in labels[: n // 2]:
        net.add_node(x)
    for k in range(3 * n):
        i, j = k * k % n, (k * 5 + 2 * (k // n)) % n
        if (i, j) == (1, 1) or n - 2 in (i, j):
            continue
        for r in range(1 + (k % 4 == 0) + 2 * (k % 11 == 0)):
            w = ctx.int("w%d_%d" % (k, r))
            net.add_edge(labels[i], labels[j], **{weight: w, "k": k})
            es.setdefault((i, j), []).append({weight: w, "k": k})
    for r in range(2):
        w = ctx.int("loop%d" % r)
        net.add_edge(labels[3], labels[3], **{weight: w, "k": r})
        es.setdefault((3, 3), []).append({weight: w, "k": r})
    for x in labels:
        net.add_node(x)
    return net, labels, es
