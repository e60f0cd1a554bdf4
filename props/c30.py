"""C30: the head-centric Turing machine."""
from sx.harness import harness
from .c29 import SYMBOLS, arbitrary_table, lookup
from .common import same_value

BOUNDS = ("tapes of 1 to 4 cells, machines with 2 or 3 head states and 2 symbols with arbitrary rule tables, arbitrary tapes, initial head "
          "states and positions, with an arbitrary terminating state, a maximum of 1 to 4 tapes, or both; string states; symbols and states that are None, falsy or containers; undefined "
          "directions and missing entries; "
          "30 and 40 timesteps on tapes of 5 and 12 cells with some arbitrary entries of the table (thorough: 80 on 20).")

OUTSIDE = "terminating states that are reached after more than the maximum number of steps explored; a maximum of 0."


def simulate(table, tape, state, pos, terminating, maximum, limit):
    """-> tapes, heads, whether it was still running at the limit"""
    tapes, heads = [list(tape)], [(state, pos)]
    halted = False
    while len(tapes) < limit:
        if halted or (maximum is not None and len(tapes) == maximum):
            return tapes, heads, False
        q, w, d = lookup(table, state, tapes[-1][pos])
        new = list(tapes[-1])
        new[pos] = w
        tapes.append(new)
        state, pos = q, (pos + int(d) - 1) % len(tape)
        heads.append((state, pos))
        if terminating is not None and (state == terminating if isinstance(state, str) else int(state) == terminating):
            halted = True
    return tapes, heads, not (halted or (maximum is not None and len(tapes) == maximum))


def check_run(ctx, machine, want, name=lambda q: q if isinstance(q, str) else str(int(q))):
    tapes, heads, _ = want
    ntm = ctx.ntm
    ctx.eq("the initial head", list(machine.initial_conditions), [heads[0]])
    traj = ntm.evolve(network=machine.network, initial_conditions=machine.initial_conditions, activity_rule=machine.activity_rule,
                      input=machine.input_function)
    ctx.check("halts in time", len(traj) == len(heads))
    for t, h in enumerate(heads):
        ctx.check("one node", list(traj[t].activities) == [0])
        ctx.eq("the head's state and position", tuple(traj[t].activities[0]), h)
    shown, marks = machine.activities_for_plotting(traj)
    ctx.eq("the tapes", [list(x) for x in shown], tapes)
    n = len(tapes[0])
    ctx.check("one row of marks per tape", len(marks) == len(tapes) and all(len(r) == n for r in marks))
    for t, (q, p) in enumerate(heads):
        ctx.check("the head is shown at its position only", all((marks[t][i] is None) == (i != p) for i in range(n)))
        ctx.check("the state of the head", marks[t][p] == name(q))


@harness(quick=[{"n": 1, "states": 2, "max": 3}, {"n": 2, "states": 2, "max": 3}, {"n": 3, "states": 2, "max": 3, "_weight": 5},
                {"n": 3, "states": 2, "max": 1}, {"n": 4, "states": 3, "max": 2}, {"n": 2, "states": 2, "max": 4, "_weight": 5}],
         thorough=[{"n": 4, "states": 2, "max": 4, "_weight": 9}, {"n": 3, "states": 2, "max": 5, "_weight": 9}])
def maximum(ctx, n, states, max):
    """stops when the maximum number of tapes is recorded, or earlier at the terminating state"""
    ntm = ctx.ntm
    table = arbitrary_table(ctx, states, 2)
    tape = ctx.ints("c", n, 0, 1)
    state, pos = int(ctx.int("state", 0, states - 1)), int(ctx.int("pos", 0, n - 1))
    end = ctx.choice("end", [None, states - 1, 0])
    given = list(tape)
    machine = ntm.HeadCentricTuringMachine(tape=given, rule_table=table, initial_head_state=state, initial_head_position=pos,
                                           terminating_state=end, max_timesteps=max)
    check_run(ctx, machine, simulate(table, tape, state, pos, end, max, 99))
    ctx.eq("the given tape is not written to", given, list(tape))


@harness(quick=[{"n": 2, "limit": 4, "_weight": 5}, {"n": 3, "limit": 3}], thorough=[{"n": 3, "limit": 5, "_weight": 9}])
def terminating(ctx, n, limit):
    """halts right after entering the terminating state (machines that do within the limit)"""
    ntm = ctx.ntm
    table = arbitrary_table(ctx, 2, 2)
    tape = ctx.ints("c", n, 0, 1)
    state, pos = int(ctx.int("state", 0, 1)), int(ctx.int("pos", 0, n - 1))
    end = ctx.choice("end", [0, 1])
    want = simulate(table, tape, state, pos, end, None, limit)
    ctx.assume(not want[2])
    machine = ntm.HeadCentricTuringMachine(list(tape), table, state, pos, end)
    check_run(ctx, machine, want)


@harness(quick=[{}])
def named_states(ctx):
    """strings as states and symbols"""
    ntm = ctx.ntm
    TM = ntm.TuringMachine
    moves = [TM.LEFT, TM.STAY, TM.RIGHT]
    table = {"q": {"a": ("r", "b", ctx.choice("d0", moves)), "b": ("q", "a", ctx.choice("d1", moves))},
             "r": {"a": ("stop", "bb", ctx.choice("d2", moves)), "b": ("q", "b", ctx.choice("d3", moves)), "bb": ("stop", "a", TM.STAY)}}
    table["q"]["bb"] = ("stop", "a", TM.LEFT)
    tape = [ctx.choice("c0", ["a", "b"]), ctx.choice("c1", ["a", "b"]), "a"]
    pos = ctx.choice("pos", range(3))
    off = {TM.LEFT: 0, TM.STAY: 1, TM.RIGHT: 2}
    plain = {x: {y: (q, w, off[d]) for y, (q, w, d) in r.items()} for x, r in table.items()}
    machine = ntm.HeadCentricTuringMachine(list(tape), table, "q", pos, "stop", 6)
    check_run(ctx, machine, simulate(plain, tape, "q", pos, "stop", 6, 99))


@harness(quick=[{}])
def errors(ctx):
    """missing rules and undefined directions are errors; an end must be given"""
    ntm = ctx.ntm
    bad = ctx.choice("bad", ["state", "symbol", "direction"])
    table = {0: {0: (0, 1, 2), 1: (1, 0, 0)}, 1: {0: (0, 0, 1), 1: (0, 1, 2)}}
    if bad == "direction":
        d = ctx.int("d")
        ctx.assume(ctx.either(d < 0, d > 2))
        table[0][0] = (0, 1, d)
    elif bad == "symbol":
        del table[0][0]
    else:
        del table[0]
    m = ntm.HeadCentricTuringMachine([0, ctx.int("c", 0, 1)], table, 0, 0, max_timesteps=3)
    ctx.raises("an error", lambda: ntm.evolve(network=m.network, initial_conditions=m.initial_conditions,
                                              activity_rule=m.activity_rule, input=m.input_function))
    ctx.raises("an end must be given", lambda: ntm.HeadCentricTuringMachine([0, 1], table, 0, 0))


@harness(quick=[{"steps": 4}])
def odd_symbols(ctx, steps):
    """symbols and head states that are None, falsy, containers"""
    ntm = ctx.ntm
    k = int(ctx.int("shift", 0, len(SYMBOLS) - 1))
    a, b, c = [SYMBOLS[(k + j) % len(SYMBOLS)] for j in (0, 3, 7)]
    p, q = ctx.choice("states", [("", "s"), (0, 5), ((), (1,))])
    moves = [ctx.choice("d%d" % j, [0, 1, 2]) for j in range(2)]
    table = {p: {a: (q, b, moves[0]), b: (p, c, 2), c: (q, a, moves[1])}, q: {a: (p, c, moves[1]), b: (q, a, moves[0]), c: (p, b, 0)}}
    tape = [a, b, c, a]
    pos, state = ctx.choice("pos", range(4)), ctx.choice("state", [p, q])
    machine = ntm.HeadCentricTuringMachine(tape=list(tape), rule_table=table, initial_head_state=state, initial_head_position=pos,
                                           max_timesteps=steps)
    traj = ntm.evolve(network=machine.network, initial_conditions=machine.initial_conditions, activity_rule=machine.activity_rule,
                      input=machine.input_function)
    tapes, heads = [list(tape)], [(state, pos)]
    for t in range(1, steps):
        state, tape[pos], d = table[state][tape[pos]]
        pos = (pos + d - 1) % 4
        tapes.append(list(tape))
        heads.append((state, pos))
    ctx.check("halts in time", len(traj) == steps)
    ctx.check("the head's state and position", all(same_value(tuple(s.activities[0]), h) for s, h in zip(traj, heads)))
    shown, marks = machine.activities_for_plotting(traj)
    ctx.check("the tapes", same_value([list(x) for x in shown], tapes))


@harness(quick=[{"n": 12, "limit": 40, "states": 3, "_weight": 4}, {"n": 5, "limit": 30, "states": 4, "_weight": 4}],
         thorough=[{"n": 20, "limit": 80, "states": 4, "_weight": 9}])
def long_runs(ctx, n, limit, states):
    """many timesteps on longer tapes: a table with some arbitrary entries, ended by a state, a maximum, or both"""
    table = {a: {b: ((a * 2 + b * 3 + 1) % states, (a + b + (a * b == 1)) % 3, (2, 0, 1, 2, 2)[(a * 3 + b) % 5]) for b in range(3)} for a in range(states)}
    for k, (a, b) in enumerate(((0, 0), (1, 1))):
        table[a][b] = (ctx.int("q%d" % k, 0, states - 1), ctx.int("w%d" % k, 0, 2), ctx.int("d%d" % k, 0, 2))
    tape = [(i * i) % 3 for i in range(n)]
    pos = ctx.choice("pos", [0, n // 2, n - 1])
    end, max = ctx.choice("end", [(None, limit), (2, limit), (2, None)])
    want = simulate(table, tape, 0, pos, end, max, limit + 1)
    ctx.assume(not want[2])
    machine = ctx.ntm.HeadCentricTuringMachine(list(tape), table, 0, pos, end, max)
    check_run(ctx, machine, want)


@harness(quick=[{"n": 130, "limit": 12}, {"n": 3, "limit": 230}, {"n": 300, "limit": 5}], thorough=[{"n": 7, "limit": 600}], path_seconds=60)
def large(ctx, n, limit):
    """long tapes, the head at every kind of place; many timesteps"""
    k = int(ctx.int("w", 0, 1))
    table = {0: {0: (1, 1, 1), 1: (1, k, 2)}, 1: {0: (2, 1, 2), 1: (0, 0, 0)}, 2: {0: (0, 1 - k, 1), 1: (2, 0, ctx.choice("d", [0, 1, 2]))}}
    tape = [(i * i // 3) % 2 for i in range(n)]
    pos = ctx.choice("pos", sorted({0, 1, n // 2, min(101, n - 1), n - 2, n - 1}))
    machine = ctx.ntm.HeadCentricTuringMachine(list(tape), table, 0, pos, max_timesteps=limit)
    check_run(ctx, machine, simulate(table, tape, 0, pos, None, limit, limit + 1))


@harness(quick=[{}])
def terminating_states_of_other_kinds(ctx):
    """states that look alike but are different: only the terminating one halts"""
    ntm = ctx.ntm
    a, end = ctx.choice("states", [(1, "1"), ("1", 1), (None, "None"), ("stop", "Stop"), ("halt ", "halt"), ((), ""), (False, "False"), ("", 0), ("x", "")])
    table = {"go": {0: (a, 1, 2), 1: (a, 1, 2)}, a: {0: ("go", ctx.choice("w", [0, 1]), 0), 1: (end, 1, 1)}, end: {0: ("go", 0, 2), 1: ("go", 1, 2)}}
    tape = [ctx.choice("c%d" % i, [0, 1]) for i in range(3)]
    machine = ntm.HeadCentricTuringMachine(list(tape), table, "go", 0, terminating_state=end, max_timesteps=9)
    state, pos, tapes, heads = "go", 0, [list(tape)], [("go", 0)]
    while len(tapes) < 9:
        state, w, d = table[state][tapes[-1][pos]]
        new = list(tapes[-1])
        new[pos] = w
        tapes.append(new)
        pos = (pos + d - 1) % 3
        heads.append((state, pos))
        if type(state) is type(end) and state == end:
            break
    traj = ntm.evolve(network=machine.network, initial_conditions=machine.initial_conditions, activity_rule=machine.activity_rule,
                      input=machine.input_function)
    ctx.check("halts in time", len(traj) == len(heads))
    ctx.check("the head's state and position", all(same_value(tuple(s.activities[0]), h) for s, h in zip(traj, heads)))
    shown, marks = machine.activities_for_plotting(traj)
    ctx.check("the tapes", [list(x) for x in shown] == tapes)


@harness(quick=[{}])
def two_machines(ctx):
    """two machines that run one after the other on one rule table"""
    ntm = ctx.ntm
    table = {0: {0: (1, 1, 2), 1: (1, ctx.choice("w", [0, 1]), 0)}, 1: {0: (0, 1, 0), 1: (1, 0, ctx.choice("d", [0, 1, 2]))}}
    starts = [([0, 1, 0], 0, int(ctx.int("p", 0, 2)), 4), ([1, 1, 0, 0], 1, 2, 3)]
    given = [list(s[0]) for s in starts]
    machines = [ntm.HeadCentricTuringMachine(g, table, q, p, max_timesteps=m) for g, (_, q, p, m) in zip(given, starts)]
    for m, (tape, q, p, mx) in reversed(list(zip(machines, starts))):
        check_run(ctx, m, simulate(table, tape, q, p, None, mx, 99))
    ctx.check("the given tapes are not written to", given == [s[0] for s in starts])
