"""C18: elementary rule numbers."""
from sx.harness import harness
from .common import same_activities

BOUNDS = ("neighbourhoods of 1 to 5 arbitrary cells (given as lists or tuples) under every rule number of up to 2^n bits, both "
          "schemes; bits_to_int of 0 to 8 arbitrary bits, and of up to 65 bits three of which are arbitrary; some rule numbers for 9 to 11 cells; int_to_bits of every number below 2^8 (and up to 32 digits of padding); "
          "rings of 3 to 5 arbitrary cells evolved under an arbitrary rule number.")

OUTSIDE = "rule numbers with more than 2^n bits; larger neighbourhoods."


class Ctx:
    """the part of a NodeContext these rules read"""

    def __init__(self, activities, current=None):
        self.neighbourhood_activities, self.current_activity = activities, current
        self.node_label, self.timestep, self.input = 0, 1, None


def node_context(ctx, activities, current=None):
    n = len(activities)
    return ctx.ntm.NodeContext(0, 1, dict(enumerate(activities)), list(range(n)), activities, {i: [{}] for i in range(n)},
                               activities[n // 2] if current is None else current, None, None)


def bit(ctx, rule, n, s):
    """bit s (least significant first) of a number of n bits, s symbolic"""
    out = 0
    for k in range(n):
        out = ctx.ite(s == k, (rule // (1 << k)) % 2, out)
    return out


def number(bits):
    s = 0
    for b in bits:
        s = 2 * s + b
    return s


@harness(quick=[{"n": n, "scheme": s, "_weight": n} for n in (1, 2, 3, 4) for s in ("nks", "default")] + [{"n": 5, "scheme": "nks", "_weight": 9}],
         thorough=[{"n": 5, "scheme": "default", "_weight": 9}])
def rule_numbers(ctx, n, scheme):
    """the stated bit of the rule number, for every rule and neighbourhood"""
    ntm = ctx.ntm
    rule = ctx.int("rule", 0, 2 ** (2 ** n) - 1)
    bits = ctx.ints("b", n, 0, 1)
    s = number(bits)
    c = node_context(ctx, list(bits))
    if scheme == "nks":
        got = ntm.rules.nks_ca_rule(rule)(c)
        ctx.eq("binary_ca_rule with scheme nks is the same", ntm.rules.binary_ca_rule(rule, scheme="nks")(c), got)
        want = bit(ctx, rule, 2 ** n, s)
    else:
        got = ntm.rules.binary_ca_rule(rule)(c)
        want = bit(ctx, rule, 2 ** n, 2 ** n - 1 - s)
    ctx.eq("the bit the neighbourhood reads", got, want)


@harness(quick=[{"n": n} for n in range(0, 9)], thorough=[{"n": n} for n in (10, 12)])
def bits_to_int(ctx, n):
    """binary notation, and int_to_bits is its inverse"""
    ntm = ctx.ntm
    bits = ctx.ints("b", n, 0, 1)
    x = ntm.rules.bits_to_int(tuple(bits) if ctx.flag("tuple") else list(bits))
    ctx.eq("the number the bits denote", x, number(bits))
    if n:
        back = ntm.rules.int_to_bits(x, n)
        ctx.eq("int_to_bits is the inverse", [back[k] for k in range(len(back))], list(bits))


@harness(quick=[{"bits": 1}, {"bits": 3}, {"bits": 6, "_weight": 2}, {"bits": 8, "_weight": 9}], thorough=[{"bits": 11, "_weight": 9}])
def int_to_bits(ctx, bits):
    """binary digits padded on the left"""
    ntm = ctx.ntm
    x = ctx.int("x", 0, 2 ** bits - 1)
    digits = ctx.choice("digits", [bits, bits + 1, 32])
    got = ntm.rules.int_to_bits(x, digits)
    ctx.check("number of digits", len(got) == digits)
    ctx.eq("the digits", [got[k] for k in range(digits)], [(x // 2 ** (digits - 1 - k)) % 2 for k in range(digits)])
    ctx.eq("bits_to_int is the inverse", ntm.rules.bits_to_int([got[k] for k in range(digits)]), x)


@harness(quick=[{"n": 3, "steps": 2}, {"n": 4, "steps": 2, "_weight": 3}], thorough=[{"n": 5, "steps": 2, "_weight": 9}])
def evolved(ctx, n, steps):
    """a ring of arbitrary cells under an arbitrary elementary rule"""
    ntm = ctx.ntm
    rule = ctx.int("rule", 0, 255)
    s = ctx.ints("s", n, 0, 1)
    traj = ntm.evolve(network=ntm.topology.cellular_automaton(n), initial_conditions=list(s), timesteps=steps,
                      activity_rule=ntm.rules.nks_ca_rule(rule))
    for t in range(1, steps):
        s = [bit(ctx, rule, 8, number([s[i - 1], s[i], s[(i + 1) % n]])) for i in range(n)]
        same_activities(ctx, "activities", traj[t].activities, dict(enumerate(s)))


@harness(quick=[{"n": 9, "ones": 3}, {"n": 11, "ones": 2}])
def wide_neighbourhoods(ctx, n, ones):
    """many cells under a given rule number: up to `ones` live cells anywhere, or dead ones among live ones"""
    ntm = ctx.ntm
    import itertools
    rule = sum(((j * j + j // 7) % 3 % 2) << j for j in range(2 ** n))
    scheme = ctx.choice("scheme", ["nks", "default"])
    flip = int(ctx.int("flip", 0, 1))
    live = ctx.choice("live", [c for k in range(ones + 1) for c in itertools.combinations(range(n), k)])
    bits = [1 - flip if i in live else flip for i in range(n)]
    s = number(bits)
    got = ntm.rules.binary_ca_rule(rule, scheme=scheme)(node_context(ctx, list(bits)))
    ctx.eq("the bit the neighbourhood reads", got, rule >> (s if scheme == "nks" else 2 ** n - 1 - s) & 1)


@harness(quick=[{"n": n} for n in (9, 12, 17, 33, 65)])
def long_bits(ctx, n):
    """three arbitrary bits at arbitrary places"""
    ntm = ctx.ntm
    rest = ctx.choice("rest", [0, 1])
    bits = [rest] * n
    i = ctx.choice("where", range(n))
    for k, b in zip((i, (i + 1) % n, (i + n // 2) % n), ctx.ints("b", 3, 0, 1)):
        bits[k] = b
    x = ntm.rules.bits_to_int(bits)
    ctx.eq("the number the bits denote", x, number(bits))
    back = ntm.rules.int_to_bits(x, n)
    ctx.eq("int_to_bits is the inverse", [back[k] for k in range(len(back))], [1 if b else 0 for b in bits])


@harness(quick=[{"sizes": (3, 2, 3)}, {"sizes": (1, 3, 2)}])
def one_rule_many_neighbourhoods(ctx, sizes):
    """several rules at work at once, each on nodes with neighbourhoods of different sizes"""
    ntm = ctx.ntm
    rules = [(2, "nks"), (2, None), (1, "nks"), (3, None)]
    fns = [ntm.rules.binary_ca_rule(r, scheme=s) for r, s in rules]
    first = ctx.choice("first", range(len(rules)))
    for j, n in enumerate(sizes):
        for q in range(2):
            r, s = rules[(first + q) % len(rules)]
            last = j == len(sizes) - 1
            bits = ctx.ints("b%d" % q, n, 0, 1) if last else [(j + q + i) % 2 for i in range(n)]
            got = fns[(first + q) % len(rules)](node_context(ctx, list(bits)))
            x = number(bits)
            ctx.eq("the bit the neighbourhood reads", got, bit(ctx, r, 2 ** n, x if s == "nks" else 2 ** n - 1 - x))


@harness(quick=[{"n": 3}, {"n": 4}])
def kinds_of_numbers(ctx, n):
    """cells as ints, booleans and numpy scalars"""
    import numpy as np
    ntm = ctx.ntm
    rule = 0x9A5C
    kind = ctx.choice("kind", ["int", "bool", "int8", "uint8", "int64", "float"])
    cells = [ctx.choice("c%d" % i, range(2)) for i in range(n)]
    given = [c if kind == "int" else bool(c) if kind == "bool" else float(c) if kind == "float" else getattr(np, kind)(c) for c in cells]
    got = ntm.rules.nks_ca_rule(rule % 2 ** (2 ** n))(node_context(ctx, given))
    ctx.eq("the bit the neighbourhood reads", got, rule >> number(cells) & 1)
    ctx.eq("bits_to_int", ntm.rules.bits_to_int(given), number(cells))
