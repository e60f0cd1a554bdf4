"""C39: average node entropy and average mutual information."""
from sx.harness import harness
from .c38 import classes, entropy, joint

BOUNDS = ("tables of 1 to 5 timesteps and 1 to 2 nodes whose states are arbitrary strings of one or two characters, integers out of -11, -1, 0, 1, 11 "
          "(one node, 3 timesteps), or numbers, booleans, tuples, long texts and large numbers out of fixed sets; every temporal distance from -1 to timesteps+1; as lists of lists and as trajectories "
          "with the nodes in any order; "
          "tables of 20x12 and 12x3 with two arbitrary states (thorough: 100x25).")

OUTSIDE = "rounding (compared up to 1e-9); states that differ although they print the same; larger tables."

KINDS = {"long": ["a state of 12", "a state of 13", "another one"], "large": [1000001, 1000002, 2000001], "int": [1, 11, -1], "float": [0.5, 5.0, 0.55], "bool": [True, False], "tuple": [(0, 1), (1, 0), (1,)], "str": ["a", "aa", "ba"]}


def mean(xs):
    return sum(xs) / len(xs)


def check(ctx, table, traj):
    ntm = ctx.ntm
    rows, cols = len(table), len(table[0])
    if traj:
        labels = list(range(cols))
        order = labels[::-1] if ctx.flag("reverse") else labels
        data = [ntm.State(activities={k: table[t][k] for k in order}) for t in range(rows)]
    else:
        data = table
    seqs = [[table[t][c] for t in range(rows)] for c in range(cols)]
    ctx.near("average node entropy", ntm.average_node_entropy(data), mean([entropy(classes(s), rows) for s in seqs]))
    d = int(ctx.int("distance", -1, rows + 1))
    if 1 <= d <= rows - 1:
        want = []
        for s in seqs:
            a, b = classes(s[:-d]), classes(s[d:])
            n = rows - d
            want.append(entropy(a, n) + entropy(b, n) - joint(a, b))
        ctx.near("average mutual information", ntm.average_mutual_information(data, temporal_distance=d), mean(want))
        if d == 1:
            ctx.near("the default distance is one", ntm.average_mutual_information(data), mean(want))
    else:
        ctx.raises("a distance out of range", lambda: ntm.average_mutual_information(data, temporal_distance=d))


@harness(quick=[{"rows": 1, "cols": 2, "length": 1, "traj": 0}, {"rows": 2, "cols": 2, "length": 2, "traj": 1}, {"rows": 3, "cols": 2, "length": 2, "traj": 0, "_weight": 3},
                {"rows": 4, "cols": 1, "length": 1, "traj": 1, "_weight": 2}, {"rows": 5, "cols": 1, "length": 1, "traj": 0, "_weight": 4}],
         thorough=[{"rows": 4, "cols": 2, "length": 2, "traj": 1, "_weight": 9}, {"rows": 6, "cols": 1, "length": 2, "traj": 0, "_weight": 9}], path_seconds=40)
def strings(ctx, rows, cols, length, traj):
    """states that are strings"""
    check(ctx, [[ctx.string("s%d_%d" % (t, c), 1 + (t + c) % length, 48, 122) for c in range(cols)] for t in range(rows)], traj)


@harness(quick=[{"rows": 2, "traj": 1}, {"rows": 3, "traj": 0, "_weight": 9}], thorough=[{"rows": 4, "traj": 0, "_weight": 9}])
def integers(ctx, rows, traj):
    """integers of one and two digits with a sign"""
    check(ctx, [[ctx.int("s%d" % t, -1, 1) * ctx.choice("digits", [1, 11]), 3] for t in range(rows)], traj)


@harness(quick=[{"kind": k, "rows": 3, "cols": 2, "traj": i % 2, "_weight": 2} for i, k in enumerate(sorted(KINDS))], thorough=[{"kind": k, "rows": 4, "cols": 2, "traj": 1 - i % 2, "_weight": 9} for i, k in enumerate(sorted(KINDS))])
def kinds(ctx, kind, rows, cols, traj):
    """other kinds of states"""
    check(ctx, [[ctx.choice("s", KINDS[kind]) for c in range(cols)] for t in range(rows)], traj)


@harness(quick=[{}])
def empty(ctx):
    """nothing to average over is rejected"""
    ctx.raises("no activities", lambda: ctx.ntm.average_node_entropy([]))
    ctx.raises("no activities", lambda: ctx.ntm.average_mutual_information([], ctx.int("d", 1, 3)))


@harness(quick=[{"rows": 20, "cols": 12, "traj": 1, "_weight": 2}, {"rows": 12, "cols": 3, "traj": 0, "_weight": 2}], thorough=[{"rows": 100, "cols": 25, "traj": 1, "_weight": 9}], path_seconds=60)
def larger(ctx, rows, cols, traj):
    """more timesteps and nodes: given states and an arbitrary one"""
    table = [[str((t * t + c * t + c // 3) % (2 + c % 3)) for c in range(cols)] for t in range(rows)]
    table[rows // 2][cols - 1] = ctx.string("s", 1, 47, 52)
    table[0][0] = ctx.string("r", 1, 47, 50)
    check(ctx, table, traj)
