"""C41: activities lists, binarization, binomial coefficients."""
import math
from sx.harness import harness

BOUNDS = ("trajectories of 1 to 3 states with up to 4 nodes in any order with arbitrary activities, states without activities anywhere; 1 to 3 numbers "
          "from 0 to 40 (arbitrary digits); pairs of integers from -2 to 12 and arguments of other types; "
          "12 nodes with labels of one and two digits, negative ones, texts, fractions and tuples (thorough: 40); 400 nodes (thorough: 1500), states whose activities are all None; numbers of up to 62 digits.")

OUTSIDE = "negative numbers in the binarization; labels that cannot be ordered; larger numbers."


@harness(quick=[{"n": 2, "steps": 3}, {"n": 3, "steps": 2}, {"n": 4, "steps": 1}], thorough=[{"n": 4, "steps": 2, "_weight": 9}, {"n": 3, "steps": 3, "_weight": 9}])
def activities_list(ctx, n, steps):
    """one row for each state with activities, nodes in the order of their labels"""
    import itertools
    ntm = ctx.ntm
    labels = ctx.choice("labels", [[0, 1, 2, 3][:n], [2, 10, 33, 100][:n], ["a", "b", "ba", "c"][:n]])
    states, want = [], []
    for t in range(steps):
        if ctx.flag("none"):
            states.append(ntm.State(activities=None))
            continue
        order = ctx.choice("order", list(itertools.permutations(range(n))))
        v = [ctx.int("a%d_%d" % (t, i)) for i in range(n)]
        states.append(ntm.State(activities={labels[i]: v[i] for i in order}))
        want.append(v)
    got = ntm.get_activities_over_time_as_list(states)
    ctx.check("rows", isinstance(got, list) and len(got) == len(want))
    ctx.eq("rows in the order of the labels", [list(r) for r in got], want)


@harness(quick=[{"n": 2}], thorough=[{"n": 4}])
def evolved(ctx, n):
    """the same for a trajectory of evolve"""
    ntm = ctx.ntm
    net = ntm.Network()
    for k in reversed(range(n)):
        net.add_node(k)
    init = {k: ctx.int("a%d" % k) for k in range(n)}
    traj = ntm.evolve(network=net, initial_conditions=init, timesteps=3, activity_rule=lambda c: c.current_activity + c.node_label + 1)
    ctx.eq("rows", [list(r) for r in ntm.get_activities_over_time_as_list(traj)], [[init[k] + t * (k + 1) for k in range(n)] for t in range(3)])


@harness(quick=[{"n": 1, "hi": 40}, {"n": 2, "hi": 40}, {"n": 3, "hi": 20}], thorough=[{"n": 2, "hi": 5000, "_weight": 5}, {"n": 4, "hi": 70, "_weight": 5}])
def binarize(ctx, n, hi):
    """binary digits, padded on the left"""
    xs = ctx.ints("x", n, 0, hi)
    got = ctx.ntm.binarize_for_plotting([[x] for x in xs])
    rows = [list(r) for r in got.tolist()]
    width = len(rows[0])
    ctx.check("one row each, of the same length", len(rows) == n and all(len(r) == width for r in rows))
    for x, r in zip(xs, rows):
        ctx.all("binary digits", [ctx.either(d == 0, d == 1) for d in r])
        ctx.check("the number", sum(d * 2 ** (width - 1 - i) for i, d in enumerate(r)) == x)
    ctx.check("not longer than needed", ctx.either(width == 1, *[r[0] == 1 for r in rows]))


@harness(quick=[{"n": 12}, {"n": 0}], thorough=[{"n": 30}])
def binomial(ctx, n):
    """the binomial coefficient; negative numbers and other types are rejected"""
    ncr = ctx.ntm.ncr
    a, b = ctx.int("n", -2, n) if n else ctx.choice("n", [20, 23, 30, 48, 57, 61, 67, 70]), ctx.int("r", -2, n or 72)
    if bool(a < 0) or bool(b < 0):
        ctx.raises("negative", lambda: ncr(a, b))
    else:
        a, b = int(a), int(b)
        got = ncr(a, b)
        ctx.check("an integer", isinstance(got, int))
        ctx.eq("the binomial coefficient", got, math.comb(a, b))


@harness(quick=[{}])
def other_types(ctx):
    """arguments that are not integers"""
    bad = ctx.choice("bad", [2.0, "2", None, 1.5, [2]])
    ctx.raises("not an integer", lambda: ctx.ntm.ncr(bad, 1))
    ctx.raises("not an integer", lambda: ctx.ntm.ncr(4, bad))


@harness(quick=[{"n": 12, "steps": 3}], thorough=[{"n": 40, "steps": 20}])
def larger(ctx, n, steps):
    """more nodes and states: labels of one and two digits, negative ones, texts"""
    labels = ctx.choice("labels", [list(range(n)), [x - 5 for x in range(n)], sorted("n%d" % i for i in range(n)), [0.5 * i for i in range(n)], [(i // 3, i) for i in range(n)]])
    v = [ctx.ints("a%d_" % t, n) for t in range(steps)]
    order = [(i * 7 + 3) % n if n % 7 else (i * 5 + 3) % n for i in range(n)]
    states = [ctx.ntm.State(activities={labels[i]: v[t][i] for i in (order if t % 2 else order[::-1])}) for t in range(steps)]
    states.insert(ctx.choice("none", range(steps + 1)), ctx.ntm.State(activities=None))
    got = ctx.ntm.get_activities_over_time_as_list(states)
    ctx.eq("rows in the order of the labels", [list(r) for r in got], v)
    xs = [i * i * 37 % 1025 for i in range(n)]
    xs[2] = ctx.int("x", 0, 15)
    rows = ctx.ntm.binarize_for_plotting([[x] for x in xs]).tolist()
    width = len(rows[0])
    ctx.check("rows of the same length, not longer than needed", len(rows) == n and all(len(r) == width for r in rows) and width == max(len(bin(int(x))) - 2 for x in xs))
    ctx.eq("the numbers", [sum(d * 2 ** (width - 1 - i) for i, d in enumerate(r)) for r in rows], xs)


@harness(quick=[{"n": 400}], thorough=[{"n": 1500}])
def many_nodes(ctx, n):
    """hundreds of nodes in any order, states in which every activity is None, large numbers"""
    back = ctx.flag("backwards")
    order = list(range(n))[::-1] if back else [(i * 7 + 3) % n for i in range(n)]
    k = ctx.choice("k", [0, n // 2, n - 1])
    v = [i * i % 13 for i in range(n)]
    v[k] = ctx.int("a")
    nones = [None] * n
    w = [None if i % 2 else False for i in range(n)]
    states = [ctx.ntm.State(activities={i: row[i] for i in order}) for row in (v, nones, w)]
    got = ctx.ntm.get_activities_over_time_as_list(states)
    ctx.eq("rows in the order of the labels", [list(r) for r in got], [v, nones, w])


@harness(quick=[{"bits": 40}, {"bits": 62}])
def large_numbers(ctx, bits):
    """numbers of many digits"""
    xs = [3, 2 ** bits - 1, 2 ** (bits - 1) + 5, 2 ** 33 + 1, 0]
    xs = xs[:ctx.choice("n", [2, 3, 5])]
    xs[ctx.choice("where", [0, 1])] = 2 ** (bits - 3) + int(ctx.int("x", 0, 3)) * 2 ** 31
    rows = ctx.ntm.binarize_for_plotting([[x] for x in xs]).tolist()
    width = len(rows[0])
    ctx.check("rows of the same length, not longer than needed", all(len(r) == width for r in rows) and width == max(len(bin(x)) - 2 for x in xs))
    ctx.eq("the numbers", [sum(int(d) * 2 ** (width - 1 - i) for i, d in enumerate(r)) for r in rows], xs)
