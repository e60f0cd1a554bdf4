"""C26: CTRBL rules."""
import itertools
from sx.harness import harness
from .common import same_activities

BOUNDS = ("tori of 3x3 to 5x4 (3x3 to 7x7 in thorough) with arbitrary cells and an arbitrary rule (the five activities in "
          "CTRBL order go to an uninterpreted function), 2 timesteps; tables with one to three entries over arbitrary states "
          "0..3 and every neighbourhood, with and without rotations; "
          "8 timesteps on a 5x7 torus under a complete table of three states (thorough: 20 on 12x11); equality of neighbourhood "
          "containers for arbitrary labels; several rules of one table; a torus of 12x13 (25x24).")

OUTSIDE = ("tables with two entries that are quarter-turns of each other with different images (contradictory); tables with "
           "more entries, larger tori.")


@harness(quick=[{"rows": r, "cols": c} for r, c in ((3, 3), (3, 4), (4, 3), (3, 5), (5, 4))],
         thorough=[{"rows": r, "cols": c} for r in range(3, 8) for c in range(3, 8)])
def neighbourhoods(ctx, rows, cols):
    """what the rule is given: centre, top, right, bottom, left, on the torus"""
    ntm = ctx.ntm
    f = ctx.fn("f", 5)
    rule = ntm.CTRBLRule((rows, cols), {})
    s = {k: ctx.int("s%d" % k) for k in range(rows * cols)}
    traj = ntm.evolve(network=rule.network, initial_conditions=dict(s), timesteps=2,
                      activity_rule=lambda c: f(*c.neighbourhood_activities))
    at = lambda i, j: s[(i % rows) * cols + j % cols]
    same_activities(ctx, "centre, top, right, bottom, left", traj[1].activities,
                    {i * cols + j: f(at(i, j), at(i - 1, j), at(i, j + 1), at(i + 1, j), at(i, j - 1))
                     for i in range(rows) for j in range(cols)})
    for i in range(rows):
        for j in range(cols):
            n = rule.neighbourhood_map[i * cols + j]
            lab = lambda a, b: (a % rows) * cols + b % cols
            ctx.eq("neighbourhood map", [n.center, n.top, n.right, n.bottom, n.left],
                   [lab(i, j), lab(i - 1, j), lab(i, j + 1), lab(i + 1, j), lab(i, j - 1)])


class Ctx:
    """the part of a NodeContext the rule reads"""

    def __init__(self, a):
        self.neighbourhood_activities, self.activities, self.node_label, self.timestep = a, dict(enumerate(a)), 0, 1
        self.current_activity, self.neighbour_labels = a[0], list(range(5))


def turns(e):
    return [(e[0],) + tuple(e[1:][-k:] + e[1:][:-k]) if k else tuple(e) for k in range(4)]


@harness(quick=[{"n": 1, "free": 5, "rot": True, "k": 2, "_weight": 9}, {"n": 1, "free": 5, "rot": False, "k": 2, "_weight": 5},
                {"n": 2, "free": 3, "rot": True, "k": 3, "_weight": 5}, {"n": 3, "free": 2, "rot": False, "k": 3}],
         thorough=[{"n": 1, "free": 5, "rot": True, "k": 3, "_weight": 9}, {"n": 2, "free": 4, "rot": True, "k": 3, "_weight": 9}])
def tables(ctx, n, free, rot, k):
    """the image of the entry (or of the entry it is a quarter-turn of); undefined neighbourhoods fail"""
    ntm = ctx.ntm
    base = [[0, 1, 2, 1, 0], [1, 0, 0, 2, 1], [2, 2, 1, 0, 1]]
    entries, images = [], []
    for i in range(n):
        e = [int(ctx.int("e%d_%d" % (i, j), 0, k - 1)) if (j < free if i == 0 else i == 1 and 1 <= j < free - 1) else base[i][j]
             for j in range(5)]
        entries.append(tuple(e))
        images.append(ctx.int("image%d" % i))
    for a, b in itertools.combinations(range(n), 2):
        same = any(t == entries[b] for t in turns(entries[a])) if rot else entries[a] == entries[b]
        ctx.assume(not same)
    rule = ntm.CTRBLRule((3, 3), {entries[i]: images[i] for i in range(n)}, add_rotations=rot)
    # a neighbourhood: the entry, one of its turns or mirror images, or something else
    e0 = entries[0]
    probe = ctx.choice("probe", [t for e in entries for t in turns(e)] + turns((e0[0], e0[1], e0[4], e0[3], e0[2])) +
                       [(e0[0] + 1,) + e0[1:], e0[1:] + e0[:1], (e0[1], e0[0]) + e0[2:], (3, 3, 3, 3, 3)])
    want = [images[i] for i in range(n) if (probe in turns(entries[i]) if rot else probe == entries[i])]
    if want:
        ctx.eq("the image of the entry", rule.activity_rule(Ctx(list(probe))), want[0])
    else:
        ctx.raises("an undefined neighbourhood fails", lambda: rule.activity_rule(Ctx(list(probe))))


@harness(quick=[{"rows": 3, "cols": 3, "_weight": 9}], thorough=[{"rows": 3, "cols": 4, "_weight": 9}])
def evolved(ctx, rows, cols):
    """an arbitrary complete binary table on a torus"""
    ntm = ctx.ntm
    table = {key: ctx.int("t%d%d%d%d%d" % key, 0, 1) for key in itertools.product((0, 1), repeat=5)}
    s = {k: ctx.int("s%d" % k, 0, 1) for k in range(rows * cols)}
    rule = ntm.CTRBLRule(dim=(rows, cols), rule_table=dict(table))
    traj = ntm.evolve(network=rule.network, initial_conditions=dict(s), timesteps=2, activity_rule=rule.activity_rule)
    c = {k: int(x) for k, x in s.items()}
    at = lambda i, j: c[(i % rows) * cols + j % cols]
    same_activities(ctx, "the table's entry", traj[1].activities,
                    {i * cols + j: table[(at(i, j), at(i - 1, j), at(i, j + 1), at(i + 1, j), at(i, j - 1))]
                     for i in range(rows) for j in range(cols)})


@harness(quick=[{"rows": 5, "cols": 7, "steps": 8}, {"rows": 11, "cols": 3, "steps": 4}], thorough=[{"rows": 12, "cols": 11, "steps": 20}])
def long_runs(ctx, rows, cols, steps):
    """many timesteps on larger tori under a complete table of three states, given by its entries up to rotation, some of them arbitrary"""
    ntm = ctx.ntm
    table = {}
    for key in itertools.product(range(3), repeat=5):
        if not any(t in table for t in turns(key)):
            table[key] = (key[0] * 2 + key[1] + key[2] * key[4] + key[3] + key[1] * key[3]) % 3
            if len(table) == 7 and ctx.flag("doubled"):
                # an entry and its turn, with the same image
                table[turns(key)[1]] = table[key]
    for key in ((0, 0, 0, 0, 0), (1, 2, 1, 0, 0)):
        e = [t for t in turns(key) if t in table]
        x = ctx.choice("image", range(3))
        for t in e:
            table[t] = x
    rule = ntm.CTRBLRule((rows, cols), dict(table), add_rotations=True)
    s = [(k * k + k // 4) % 3 for k in range(rows * cols)]
    s[cols + 2] = ctx.choice("s", range(3))
    traj = ntm.evolve(network=rule.network, initial_conditions=list(s), timesteps=steps, activity_rule=rule.activity_rule)
    at = lambda i, j: s[(i % rows) * cols + j % cols]
    for t in range(1, steps):
        new = []
        for i in range(rows):
            for j in range(cols):
                e = (at(i, j), at(i - 1, j), at(i, j + 1), at(i + 1, j), at(i, j - 1))
                new.append(next(table[x] for x in turns(e) if x in table))
        s = new
        same_activities(ctx, "the table's entry", traj[t].activities, dict(enumerate(s)))


@harness(quick=[{}])
def neighbourhood_equality(ctx):
    """two neighbourhoods are equal exactly if all their labels are"""
    V = ctx.ntm.VonNeumannNeighbourhood
    names = ("center", "top", "bottom", "left", "right")
    a, b = ctx.ints("a", 5), ctx.ints("b", 5)
    x, y = V(*a), V(**dict(zip(names, b)))
    ctx.eq("labels", [getattr(x, n) for n in names] + [getattr(y, n) for n in names], a + b)
    same = ctx.both(*[p == q for p, q in zip(a, b)])
    ctx.check("equality", same if x == y else ctx.neg(same))
    ctx.check("inequality", ctx.neg(same) if x != y else same)


@harness(quick=[{}])
def shared_table(ctx):
    """several rules of one table, with and without rotations: each has its own entries; the table given stays as it is"""
    ntm = ctx.ntm
    e = (1, 0, 2, 0, ctx.choice("left", [1, 2, 3]))
    table = {e: ctx.int("image"), (3, 3, 3, 3, 3): 4}
    before = dict(table)
    plans = ctx.choice("plans", [(True, False), (False, True), (True, False, True), (False, True, False)])
    rules = [ntm.CTRBLRule((3, 3 + i), table, add_rotations=p) for i, p in enumerate(plans)]
    ctx.eq("the table given", table, before)
    probes = list(dict.fromkeys(turns(e))) + [(0, 0, 0, 0, 0)]
    for rot, rule in zip(plans, rules):
        for p in probes:
            if p == e or rot and p in turns(e):
                ctx.eq("the image of the entry", rule.activity_rule(Ctx(list(p))), before[e])
            else:
                ctx.raises("an undefined neighbourhood fails", lambda: rule.activity_rule(Ctx(list(p))))
    if ctx.flag("changed_later"):
        ctx.eq("the entries of the rule", {k: rules[0].rule_table[k] for k in (e, (3, 3, 3, 3, 3))}, before)


@harness(quick=[{"rows": 12, "cols": 13}], thorough=[{"rows": 25, "cols": 24}], path_seconds=60)
def undefined_anywhere(ctx, rows, cols):
    """one cell, anywhere on a larger torus, has an undefined neighbourhood"""
    ntm = ctx.ntm
    where = ctx.choice("where", [0, cols - 1, 40, 65, 101, 130, rows * cols - 1])
    table = {(0, 0, 0, 0, 0): 0, (1, 0, 0, 0, 0): 1}
    rule = ntm.CTRBLRule((rows, cols), table)
    s = [0] * (rows * cols)
    s[where] = 1
    run = lambda: ntm.evolve(network=rule.network, initial_conditions=list(s), timesteps=2, activity_rule=rule.activity_rule)
    ctx.raises("an undefined neighbourhood fails", run)
    i, j = divmod(where, cols)
    x = ctx.int("x")
    at = [((i + 1) % rows) * cols + j, i * cols + (j - 1) % cols, ((i - 1) % rows) * cols + j, i * cols + (j + 1) % cols]
    for k in range(4):   # the live cell is the top, right, bottom, left neighbour of these
        table[(0,) + tuple(int(q == k) for q in range(4))] = x + k
    rule = ntm.CTRBLRule((rows, cols), dict(table))
    run = lambda: ntm.evolve(network=rule.network, initial_conditions=list(s), timesteps=2, activity_rule=rule.activity_rule)
    want = dict(enumerate(s))
    want.update({c: x + k for k, c in enumerate(at)})
    same_activities(ctx, "the table's entry", run()[1].activities, want)
