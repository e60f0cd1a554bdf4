"""C29: the tape-centric Turing machine."""
from sx.harness import harness
from .common import same_activities, same_map

BOUNDS = ("tapes of 3 to 5 cells, machines with 2 or 3 head states and 2 symbols (thorough: 3) with arbitrary rule tables, arbitrary tapes, "
          "initial head states and positions, 2 to 4 timesteps; integer and string states; symbols and states that are None, falsy or containers (a table of 10); a missing entry at every place of the table; "
          "30 and 40 timesteps on tapes of 12 and 5 cells with some arbitrary entries of the table (thorough: 80 on 20).")

OUTSIDE = "one machine object used for several evolutions; tapes with fewer than 3 cells; more steps."


def lookup(table, state, symbol):
    return table[int(state) if not isinstance(state, str) else state][int(symbol) if not isinstance(symbol, str) else symbol]


def arbitrary_table(ctx, states, symbols):
    """entry -> (next state, symbol, direction), each arbitrary (decided only when it is used)"""
    table = {}
    for a in range(states):
        table[a] = {}
        for b in range(symbols):
            table[a][b] = (ctx.int("q%d%d" % (a, b), 0, states - 1), ctx.int("w%d%d" % (a, b), 0, symbols - 1), ctx.int("d%d%d" % (a, b), 0, 2))
    return table


def check_run(ctx, machine, table, tape, state, pos, steps):
    n = len(tape)
    ntm = ctx.ntm
    traj = ntm.evolve(network=machine.network, initial_conditions=list(tape), timesteps=steps, activity_rule=machine.activity_rule)
    ctx.check("number of states", len(traj) == steps)
    tape, heads = list(tape), [(state, pos)]
    for t in range(1, steps):
        q, w, d = lookup(table, state, tape[pos])
        tape[pos] = w
        state, pos = q, (pos + int(d) - 1) % n
        heads.append((state, pos))
        same_activities(ctx, "only the cell under the head changes", traj[t].activities, dict(enumerate(tape)))
    shown = machine.head_activities(traj)
    ctx.check("one row of head activities per timestep", len(shown) == steps and all(len(r) == n for r in shown))
    for t, (q, p) in enumerate(heads):
        ctx.check("the head is shown at its position only", all((shown[t][i] is None) == (i != p) for i in range(n)))
        ctx.check("the state of the head", shown[t][p] == (q if isinstance(q, str) else str(int(q))))


@harness(quick=[{"n": 3, "states": 2, "symbols": 2, "steps": 3}, {"n": 4, "states": 2, "symbols": 2, "steps": 3, "_weight": 4},
                {"n": 3, "states": 2, "symbols": 2, "steps": 4, "_weight": 9}, {"n": 4, "states": 3, "symbols": 2, "steps": 3, "_weight": 9}],
         thorough=[{"n": 4, "states": 2, "symbols": 2, "steps": 4, "_weight": 9}, {"n": 5, "states": 3, "symbols": 3, "steps": 3, "_weight": 9}])
def any_machine(ctx, n, states, symbols, steps):
    """arbitrary rule table, tape and head"""
    ntm = ctx.ntm
    table = arbitrary_table(ctx, states, symbols)
    tape = ctx.ints("c", n, 0, symbols - 1)
    state, pos = ctx.int("state", 0, states - 1), int(ctx.int("pos", 0, n - 1))
    machine = ntm.TapeCentricTuringMachine(n=n, rule_table=table, initial_head_state=state, initial_head_position=pos)
    check_run(ctx, machine, table, tape, state, pos, steps)


@harness(quick=[{"steps": 4}], thorough=[{"steps": 6}])
def named_states(ctx, steps):
    """states and symbols that are strings; movement by the named directions"""
    ntm = ctx.ntm
    TM = ntm.TuringMachine
    moves = [TM.LEFT, TM.STAY, TM.RIGHT]
    ctx.check("directions", len(set(moves)) == 3)
    table = {"start": {"x": ("halt", "yy", ctx.choice("d0", moves)), "yy": ("start", "x", ctx.choice("d1", moves))},
             "halt": {"x": ("start", "x", ctx.choice("d2", moves)), "yy": ("halt", "yy", ctx.choice("d3", moves))}}
    tape = ["x", "x", "yy", ctx.choice("c", ["x", "yy"])]
    pos = ctx.choice("pos", range(4))
    machine = ntm.TapeCentricTuringMachine(4, table, "start", pos)
    as_offset = {TM.LEFT: 0, TM.STAY: 1, TM.RIGHT: 2}
    plain = {a: {b: (q, w, as_offset[d]) for b, (q, w, d) in r.items()} for a, r in table.items()}
    check_run(ctx, machine, plain, tape, "start", pos, steps)


@harness(quick=[{"steps": 3}], thorough=[{"steps": 4}])
def missing_rule(ctx, steps):
    """an undefined entry is an error as soon as it is needed, and only then"""
    ntm = ctx.ntm
    table = arbitrary_table(ctx, 2, 2)
    a, b = ctx.choice("missing", [(0, 0), (0, 1), (1, 0), (1, 1)])
    whole_row = ctx.flag("row")
    broken = {x: {y: e for y, e in r.items() if (x, y) != (a, b)} for x, r in table.items() if not (whole_row and x == a)}
    tape = ctx.ints("c", 3, 0, 1)
    state, pos = int(ctx.int("state", 0, 1)), int(ctx.int("pos", 0, 2))
    machine = ntm.TapeCentricTuringMachine(3, broken, state, pos)
    needed, cells, s, p = False, list(tape), state, pos
    for t in range(1, steps):
        x, y = int(s), int(cells[p])
        if x not in broken or y not in broken[x]:
            needed = True
            break
        s, cells[p], d = broken[x][y]
        p = (p + int(d) - 1) % 3
    run = lambda: ntm.evolve(network=machine.network, initial_conditions=list(tape), timesteps=steps, activity_rule=machine.activity_rule)
    if needed:
        ctx.raises("a missing rule is an error", run)
    else:
        ctx.check("the machine runs", len(run()) == steps)


SYMBOLS = [None, "", 0, (), "x", -1.5, frozenset(), b"", 10 ** 30, (0,)]


@harness(quick=[{"steps": 4}])
def odd_symbols(ctx, steps):
    """symbols and head states that are None, falsy, containers"""
    ntm = ctx.ntm
    k = int(ctx.int("shift", 0, len(SYMBOLS) - 1))
    a, b, c = [SYMBOLS[(k + j) % len(SYMBOLS)] for j in (0, 3, 7)]
    p, q = ctx.choice("states", [("", "s"), (0, 5), ((), (1,))])
    moves = [ctx.choice("d%d" % j, [0, 1, 2]) for j in range(2)]
    table = {p: {a: (q, b, moves[0]), b: (p, c, 2), c: (q, a, moves[1])}, q: {a: (p, c, moves[1]), b: (q, a, moves[0]), c: (p, b, 0)}}
    tape = [a, b, c, a]
    pos, state = ctx.choice("pos", range(4)), ctx.choice("state", [p, q])
    machine = ntm.TapeCentricTuringMachine(n=4, rule_table=table, initial_head_state=state, initial_head_position=pos)
    traj = ntm.evolve(network=machine.network, initial_conditions=dict(enumerate(tape)), timesteps=steps, activity_rule=machine.activity_rule)
    for t in range(1, steps):
        state, tape[pos], d = table[state][tape[pos]]
        pos = (pos + d - 1) % 4
        ctx.check("only the cell under the head changes", same_map(traj[t].activities, dict(enumerate(tape))))


@harness(quick=[{"n": 12, "steps": 30, "states": 3, "arbitrary": 2, "_weight": 4}, {"n": 5, "steps": 40, "states": 2, "arbitrary": 2, "_weight": 4}],
         thorough=[{"n": 20, "steps": 80, "states": 4, "arbitrary": 2, "_weight": 9}])
def long_runs(ctx, n, steps, states, arbitrary):
    """many timesteps on longer tapes: a table with some arbitrary entries, an arbitrary initial position"""
    table = {a: {b: ((a * 2 + b * 3 + 1) % states, (a + b + (a * b == 1)) % 3, (2, 0, 1, 2, 2)[(a * 3 + b) % 5]) for b in range(3)} for a in range(states)}
    for k in range(arbitrary):
        a, b = ((0, 0), (1, 1), (1, 2))[k]
        table[a][b] = (ctx.int("q%d" % k, 0, states - 1), ctx.int("w%d" % k, 0, 2), ctx.int("d%d" % k, 0, 2))
    tape = [(i * i) % 3 for i in range(n)]
    pos = ctx.choice("pos", [0, n // 2, n - 1])
    machine = ctx.ntm.TapeCentricTuringMachine(n, table, 0, pos)
    check_run(ctx, machine, table, tape, 0, pos, steps)


@harness(quick=[{"n": 130, "steps": 12}, {"n": 3, "steps": 120}, {"n": 300, "steps": 4}], thorough=[{"n": 7, "steps": 400}, {"n": 520, "steps": 9}], path_seconds=60)
def large(ctx, n, steps):
    """long tapes, the head at every kind of place; many timesteps"""
    k = int(ctx.int("w", 0, 1))
    table = {0: {0: (1, 1, 1), 1: (1, k, 2)}, 1: {0: (2, 1, 2), 1: (0, 0, 0)}, 2: {0: (0, 1 - k, 1), 1: (2, 0, ctx.choice("d", [0, 1, 2]))}}
    tape = [(i * i // 3) % 2 for i in range(n)]
    pos = ctx.choice("pos", sorted({0, 1, n // 2, min(101, n - 1), n - 2, n - 1}))
    machine = ctx.ntm.TapeCentricTuringMachine(n, table, 0, pos)
    check_run(ctx, machine, table, tape, 0, pos, steps)


@harness(quick=[{}])
def shown_states(ctx):
    """head states that are falsy or of other kinds are shown as their text"""
    q = ctx.choice("state", ["", None, 0, False, (), -1, 2.5, "s t"])
    table = {q: {0: (q, 1, 2), 1: (q, 0, 0)}}
    pos = ctx.choice("pos", range(3))
    machine = ctx.ntm.TapeCentricTuringMachine(3, table, q, pos)
    traj = ctx.ntm.evolve(network=machine.network, initial_conditions=[0, 1, 0], timesteps=3, activity_rule=machine.activity_rule)
    shown = machine.head_activities(traj)
    tape = [0, 1, 0]
    for t in range(3):
        ctx.check("the state of the head", [x for x in shown[t] if x is not None] == [str(q)] and shown[t][pos] == str(q))
        _, tape[pos], d = table[q][tape[pos]]
        pos = (pos + d - 1) % 3


@harness(quick=[{"n": 4, "steps": 4}])
def two_machines(ctx, n, steps):
    """two machines that run in turns, on one rule table"""
    ntm = ctx.ntm
    table = {0: {0: (1, 1, 2), 1: (1, ctx.choice("w", [0, 1]), 0)}, 1: {0: (0, 1, 0), 1: (1, 0, ctx.choice("d", [0, 1, 2]))}}
    starts = [(0, int(ctx.int("p", 0, n - 1))), (1, 2)]
    machines = [ntm.TapeCentricTuringMachine(n, table, q, p) for q, p in starts]
    tapes = [[0, 1, 0, 1], [1, 1, 0, 0]]
    trajs = []
    for m, tape in zip(machines, tapes):
        trajs.append(ntm.evolve(network=m.network, initial_conditions=list(tape), timesteps=steps, activity_rule=m.activity_rule))
    for m, tape, traj, (q, p) in zip(machines, tapes, trajs, starts):
        shown = m.head_activities(traj)
        for t in range(steps):
            ctx.check("its own tape and head", [traj[t].activities[i] for i in range(n)] == tape and [x if x is None else int(x) for x in shown[t]] ==
                      [q if i == p else None for i in range(n)])
            q2, tape[p], d = table[q][tape[p]]
            q, p = q2, (p + d - 1) % n
