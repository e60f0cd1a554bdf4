"""C31: substitution systems."""
import itertools
from sx.harness import harness

BOUNDS = ("alphabets of 2 and 3 symbols, every axiom of up to 3 symbols and every rule map with replacements of 0 to 2 symbols "
          "(neighbourhoods of 1, 2 and 3 symbols; 4, 5 and 6 over a given map), strings and integers, constants, 2 to 4 timesteps (including strings that "
          "become empty or shorter than the neighbourhood); "
          "axioms of up to 25 symbols and up to 7 timesteps with some arbitrary symbols (thorough: 40 symbols, 10 timesteps).")

OUTSIDE = "rule maps without an entry for a window that occurs; empty axioms."


def rewrite(s, rules, size):
    out = ""
    for i in range(len(s) - size + 1):
        out += rules[s[i:i + size]]
    return out


def check_run(ctx, system, axiom, rules, size, steps, conv=str):
    ntm = ctx.ntm
    traj = ntm.evolve(network=system.network, initial_conditions=system.initial_conditions, timesteps=steps,
                      activity_rule=system.activity_rule)
    ctx.check("number of states", len(traj) == steps)
    strings = [axiom]
    for _ in range(1, steps):
        strings.append(rewrite(strings[-1], rules, size))
    for t in range(steps):
        a = traj[t].activities
        got = [a[k] for k in sorted(a)]
        ctx.check("one node per symbol", len(got) == len(strings[t]))
        ctx.check("the type of the symbols", all(isinstance(x, conv) for x in got))
        ctx.eq("every window is replaced, in reading order", got, [conv(x) for x in strings[t]])
    if conv is str:
        ctx.eq("to_string", list(ntm.SubstitutionSystem.to_string(traj)), strings)
    width = max(len(s) for s in strings)
    padded = ntm.SubstitutionSystem.pad(traj)
    rows = padded.tolist()
    ctx.check("pad: one row per timestep, all of the same length", len(rows) == steps and all(len(r) == width for r in rows))
    ctx.eq("pad: the symbols", [r[:len(x)] for r, x in zip(rows, strings)], [[conv(x) for x in s] for s in strings])
    if conv is int:
        ctx.eq("pad: zeros", [r[len(x):] for r, x in zip(rows, strings)], [[0] * (width - len(x)) for x in strings])


@harness(quick=[{"n": n, "size": 1, "steps": 3, "ints": i, "_weight": n} for n in (1, 2, 3) for i in (0, 1)] +
         [{"n": 2, "size": 2, "steps": 3, "ints": 0}, {"n": 3, "size": 2, "steps": 3, "ints": 1, "_weight": 9},
          {"n": 1, "size": 2, "steps": 3, "ints": 0}, {"n": 4, "size": 3, "steps": 3, "ints": 0, "_weight": 5}],
         thorough=[{"n": 2, "size": 1, "steps": 4, "ints": 0, "_weight": 9}, {"n": 4, "size": 2, "steps": 3, "ints": 0, "_weight": 9}])
def any_rules(ctx, n, size, steps, ints):
    """two symbols, arbitrary replacements of 0 to 2 symbols"""
    ntm = ctx.ntm
    lo, hi = ("1", "2") if ints else ("a", "b")
    axiom = str(ctx.letters("axiom", n, lo, hi))
    rules = {}
    for key in itertools.product((lo, hi), repeat=size):
        key = "".join(key)
        used = size == 1 or any(axiom[i:i + size] == key for i in range(n))
        rules[key] = str(ctx.letters("r" + key, ctx.choice("len" + key, range(3)), lo, hi)) if used else [hi, lo + hi, "", lo][len(rules) % 4]
    start = [int(x) for x in axiom] if ints else ctx.choice("as", [axiom, list(axiom)])
    system = ntm.SubstitutionSystem(start, dict(rules))
    check_run(ctx, system, axiom, rules, size, steps, int if ints else str)


@harness(quick=[{"steps": 3}], thorough=[{"steps": 4, "_weight": 9}])
def constants(ctx, steps):
    """constants are kept where they are"""
    ntm = ctx.ntm
    symbols = "F[+"
    axiom = "".join(symbols[int(ctx.int("axiom%d" % i, 0, 2))] for i in range(2))
    new = "".join(symbols[int(ctx.int("r%d" % i, 0, 2))] for i in range(ctx.choice("len", range(4))))
    rules = {"F": new}
    given = dict(rules)
    if ctx.flag("shared"):   # the rules of another system, of which F is a constant
        ntm.SubstitutionSystem("F", given, ["F", "["])
    system = ntm.SubstitutionSystem(axiom=axiom, rules=given, constants=["[", "+"])
    check_run(ctx, system, axiom, {"F": new, "[": "[", "+": "+"}, 1, steps)
    ctx.check("the rules given stay as they are", given == rules)


@harness(quick=[{}])
def different_lengths(ctx):
    """all keys of a rule map have the same length"""
    a, b = ctx.int("a", 1, 3), ctx.int("b", 1, 3)
    ctx.assume(a != b)
    ctx.raises("keys of different lengths are rejected", lambda: ctx.ntm.SubstitutionSystem("aa", {"a" * int(a): "a", "b" * int(b): "b"}))


@harness(quick=[{"n": 11, "size": 1, "steps": 4}, {"n": 12, "size": 2, "steps": 6}, {"n": 25, "size": 3, "steps": 5}, {"n": 2, "size": 1, "steps": 7}],
         thorough=[{"n": 40, "size": 2, "steps": 10}, {"n": 2, "size": 1, "steps": 9}])
def long_strings(ctx, n, size, steps):
    """longer axioms, replacements and more timesteps, with some arbitrary symbols"""
    ints = ctx.flag("integers")
    symbols = ("7", "3") if ints else ("F", "-")
    axiom = "".join(symbols[i * i % 5 % 2] for i in range(n))
    a, b = (symbols[int(ctx.flag("s%d" % k))] for k in range(2))
    words = [a, b + a, "", symbols[1] + symbols[0], b, symbols[0] * 2 + a, symbols[0], a + symbols[1]]
    k = ctx.choice("first", range(3))
    rules = {"".join(key): words[(i + k) % (len(words) if size > 1 else 2)] for i, key in enumerate(itertools.product(symbols, repeat=size))}
    if size == 1:
        rules = {symbols[0]: [symbols[0] + a, b + symbols[0] + a, symbols[0] + "".join(symbols) + a][k], symbols[1]: words[k]}
    system = ctx.ntm.SubstitutionSystem([int(x) for x in axiom] if ints else axiom, dict(rules))
    check_run(ctx, system, axiom, rules, size, steps, int if ints else str)


@harness(quick=[{"size": 4, "n": 7}, {"size": 5, "n": 8}, {"size": 6, "n": 7}], thorough=[{"size": 7, "n": 12}])
def wide_windows(ctx, size, n):
    """neighbourhoods of four symbols and more"""
    axiom = "".join("ab"[i * i % 3 % 2] for i in range(n))
    x, y = ("ab"[int(ctx.flag(s))] for s in "xy")
    axiom = axiom[:2] + x + axiom[3:-1] + y
    words = ["a", "b", "ab", x + y, "", y + "a", "ba" + x]
    rules = {"".join(k): words[(3 * i + i // 5) % len(words)] for i, k in enumerate(itertools.product("ab", repeat=size))}
    check_run(ctx, ctx.ntm.SubstitutionSystem(axiom, dict(rules)), axiom, rules, size, 4)


@harness(quick=[{}])
def several_systems(ctx):
    """systems of one rule map that run in turns; a system that is run again"""
    ntm = ctx.ntm
    x = "ab"[int(ctx.flag("x"))]
    size = ctx.choice("size", [1, 2])
    rules = {"a": "ab", "b": x + "a"} if size == 1 else {"aa": x, "ab": "ba" + x, "ba": "", "bb": "ab"}
    axioms = ["ab" + x + "b", "ba"]
    systems = [ntm.SubstitutionSystem(a, rules) for a in axioms]
    for j in ctx.choice("turns", [(0, 1), (1, 0), (0, 0), (0, 1, 0)]):
        check_run(ctx, systems[j], axioms[j], rules, size, 4)


@harness(quick=[{}])
def many_symbols(ctx):
    """alphabets of many symbols, replacements of many symbols"""
    letters = "abcdefghijklmnopqrstuvwxyzABCDEFGH[]+-"
    k = int(ctx.int("k", 1, 3))
    rules = {c: letters[(i * 7 + k) % 38] + letters[i] * (i % 13 == 0) * 15 for i, c in enumerate(letters)}
    axiom = letters[::3] + letters[int(ctx.int("i", 0, 37))]
    check_run(ctx, ctx.ntm.SubstitutionSystem(axiom, dict(rules)), axiom, rules, 1, 4)
