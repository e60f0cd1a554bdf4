"""C34: hypergraph rewriting."""
import itertools
from sx.harness import harness
from .c06 import decided_eq

BOUNDS = ("configurations of up to 4 relations with 1 to 3 nodes each over arbitrary positive integers (all equality patterns of up to 4 "
          "arbitrary nodes, the others fixed), 20 rules with one to three relations on the left side (repeated symbols, mixed "
          "arities, shared symbols, new symbols, no change), one step through evolve and two to three steps on "
          "small configurations; "
          "configurations of up to 16 relations for up to 5 steps with two arbitrary labels (thorough: 7 steps).")

OUTSIDE = ("rules whose right side is empty and that leave no relation (an empty network cannot evolve further); whether a rule with several "
           "relations finds every match that exists (the scan is greedy); larger configurations.")

RULES = {
    "binary": ([("x", "y")], [("x", "y"), ("y", "z")]),
    "swap": ([("x", "y")], [("y", "x")]),
    "loop": ([("x", "x")], [("x", "y"), ("y", "x")]),
    "unary": ([("x",)], [("x", "y"), ("y",)]),
    "ternary": ([("x", "y", "z")], [("x", "w"), ("w", "z", "y")]),
    "ternary_repeated": ([("x", "y", "x")], [("y",), ("y", "z", "w", "z")]),
    "three_equal": ([("x", "x", "x")], [("x",)]),
    "two_new": ([("x", "y")], [("x", "u", "v"), ("v", "y"), ("u",)]),
    "chain": ([("x", "y"), ("y", "z")], [("x", "w"), ("w", "z")]),
    "common_source": ([("x", "y"), ("x", "z")], [("x", "z"), ("x", "w"), ("y", "w"), ("z", "w")]),
    "collapse": ([("x", "y"), ("x", "z")], [("z", "y")]),
    "independent": ([("x", "y"), ("z", "w")], [("x", "w"), ("z", "y"), ("v",)]),
    "mutual": ([("x", "y"), ("y", "x")], [("x",), ("y", "n")]),
    "mixed": ([("x", "y"), ("y",)], [("x",), ("x", "y")]),
    "mixed_3_2": ([("x", "y", "z"), ("z", "x")], [("x", "y"), ("w", "z")]),
    "unary_pair": ([("x",), ("y",)], [("x", "y")]),
    "same_pair": ([("x", "y"), ("x", "y")], [("x", "y"), ("y", "z")]),
    "path3": ([("x", "y"), ("y", "z"), ("z", "u")], [("x", "u"), ("w", "u")]),
    "long": ([("a", "b", "c", "d", "e", "f", "a"), ("f", "x", "y", "z", "w", "v", "x")], [("a", "f"), ("x", "n")]),
    "numbers": ([(1, 2)], [(2, 1), (2, 3)]),
}


def bind(pattern, relation, binding):
    """the binding extended by pattern = relation, or None"""
    if len(pattern) != len(relation):
        return None
    out = dict(binding)
    for s, n in zip(pattern, relation):
        if s in out:
            if not decided_eq(out[s], n):
                return None
        else:
            out[s] = n
    return out


def matches(left, relations):
    """every complete match: (indices, binding)"""
    out = []
    for idx in itertools.permutations(range(len(relations)), len(left)):
        b = {}
        for p, i in zip(left, idx):
            b = bind(p, relations[i], b)
            if b is None:
                break
        if b is not None:
            out.append((idx, b))
    return out


def greedy(left, relations):
    """how many complete matches successive scans find at least: each scan takes, for one pattern after the other, the first
    remaining relation that fits, and scanning goes on after a complete match"""
    rest, n = list(relations), 0
    while True:
        b, taken = {}, []
        for p in left:
            for i, r in enumerate(rest):
                if i in taken:
                    continue
                c = bind(p, r, b)
                if c is not None:
                    b = c
                    taken.append(i)
                    break
        if len(taken) < len(left):
            return n
        n += 1
        rest = [r for i, r in enumerate(rest) if i not in taken]


def disjoint(ms, least):
    """sets of at least `least` disjoint matches, larger ones first"""
    out = []

    def go(k, used, chosen):
        if k == len(ms):
            if len(chosen) >= least:
                out.append(list(chosen))
            return
        idx = ms[k][0]
        if not any(i in used for i in idx):
            go(k + 1, used | set(idx), chosen + [ms[k]])
        go(k + 1, used, chosen)
    go(0, frozenset(), [])
    return sorted(out, key=len)


def fits(ctx, got, kept, produced):
    """got is, as a multiset, kept plus produced, whose symbols ('new', i, s) stand for distinct new labels"""
    if len(got) != len(kept) + len(produced):
        return False
    rest = list(got)
    for r in kept:
        for k, g in enumerate(rest):
            if len(g) == len(r) and all(decided_eq(a, b) for a, b in zip(g, r)):
                del rest[k]
                break
        else:
            return False

    def go(todo, rest, new):
        if not todo:
            vals = list(new.values())
            return not any(decided_eq(a, b) for a, b in itertools.combinations(vals, 2))
        r = todo[0]
        for k, g in enumerate(rest):
            if len(g) != len(r):
                continue
            n2, ok = dict(new), True
            for a, b in zip(g, r):
                if isinstance(b, tuple) and b[0] == "new":
                    if b in n2:
                        ok = decided_eq(a, n2[b])
                    elif any(decided_eq(a, o) for o in fits.old):
                        ok = False
                    else:
                        n2[b] = a
                else:
                    ok = decided_eq(a, b)
                if not ok:
                    break
            if ok and go(todo[1:], rest[:k] + rest[k + 1:], n2):
                return True
        return False
    return go(produced, rest, {})


def check_step(ctx, left, right, before, after):
    ms = matches(left, before)
    if len(left) == 1:
        # with one relation on the left side every match is replaced
        options = [ms]
    else:
        options = disjoint(ms, greedy(left, before))
    fits.old = [n for r in before for n in r]
    for chosen in options:
        used = [i for idx, _ in chosen for i in idx]
        kept = [r for i, r in enumerate(before) if i not in used]
        produced = [[b.get(s, ("new", k, s)) for s in r] for k, (_, b) in enumerate(chosen) for r in right]
        if fits(ctx, after, kept, produced):
            ctx.check("disjoint matches are replaced by the right side, everything else is kept", True)
            return
    ctx.check("disjoint matches are replaced by the right side, everything else is kept", False, (before, after))


def run(ctx, name, config, steps):
    ntm = ctx.ntm
    left, right = RULES[name]
    conv = tuple if ctx.flag("tuples") else list
    model = ntm.WolframPhysicsModel([conv(r) for r in config], {"in": [conv(r) for r in left], "out": [conv(r) for r in right]})
    traj = ntm.evolve(network=model.network, topology_rule=model.topology_rule, timesteps=steps + 1)
    configs = [[list(r) for r in c] for c in model.to_configurations(traj)]
    ctx.check("number of configurations", len(configs) == steps + 1)
    ctx.eq("the initial configuration", configs[0], [list(r) for r in config])
    for t in range(steps):
        check_step(ctx, left, right, configs[t], configs[t + 1])


CONFIGS = {
    "binary": ["ab,bc", "ab,cd", "ab,aab,c", "aa,b,bc"],
    "swap": ["ab,ca,cc"], "loop": ["ab,cd", "aa,abc,bb", "ab,ab,a"], "unary": ["a,b,ab", "ab,c", "a,a"],
    "ternary": ["abc,ab", "abc,cba,b"], "ternary_repeated": ["abc,bab", "aba,abab"], "three_equal": ["abc,b", "aaa,aba,aaa"],
    "two_new": ["ab,c", "ab,ba,abc"],
    "chain": ["ab,cd", "ab,bc,ca", "ab,ab,bc", "ab,bc,cb,ba"],
    "common_source": ["ab,cd", "ab,ac,ad", "ab,bc,ba,cb", "aa,aa,bc"], "collapse": ["ab,cd", "aa,ab,bc"],
    "independent": ["ab,cd", "ab,a,bc", "ab,bc,ca,a"], "mutual": ["ab,cd", "ab,ba,ac", "aa,bb,aa"],
    "mixed": ["ab,c", "ab,b,a,ba", "a,bc,b"], "mixed_3_2": ["abc,cd", "abc,ca,bc", "ab,abc,cba"],
    "unary_pair": ["a,b,c", "ab,a,b,b"], "same_pair": ["ab,cd", "ab,ab,ba,ab"], "path3": ["ab,bc,cd", "ab,bc,ca,ab", "aa,aa,aa,bc"],
    "numbers": ["ab,cd", "aa,ab"],
    "long": ["abcdefb,ghijkla,abcdefa,fgabcdg", "abcdefg,abcdefa,fghijkl,fagbhia", "aaaabba,babbaab,bbbbbbb"],
}


def config_of(ctx, word, free):
    """the first `free` letters are arbitrary labels (they may also be equal), the others the labels 7, 3, 12"""
    letters = sorted(set(word) - {","})
    value = {x: (ctx.opaque("node_" + x, 1) if i < free else [7, 3, 12, 5, 30, 31, 32, 33, 34, 35, 36, 37][i]) for i, x in enumerate(letters)}
    return [[value[x] for x in r] for r in word.split(",")]


CASES = [{"rule": r, "config": c, "free": 3, "steps": 1, "_weight": len(c)} for r, cs in sorted(CONFIGS.items()) for c in cs]


@harness(quick=CASES, thorough=[dict(c, free=4, _weight=9) for c in CASES if len(set(c["config"])) == 5], path_seconds=60)
def one_step(ctx, rule, config, free, steps):
    """arbitrary labels"""
    run(ctx, rule, config_of(ctx, config, free), steps)


@harness(quick=[{"rule": r, "config": c, "free": 2, "steps": 2, "_weight": 3} for r in sorted(CONFIGS) for c in CONFIGS[r][:2] if r != "three_equal"],
         thorough=[{"rule": r, "config": c, "free": 3, "steps": 3, "_weight": 9} for r in sorted(CONFIGS) for c in CONFIGS[r][:1]], path_seconds=60)
def several_steps(ctx, rule, config, free, steps):
    """two and three steps"""
    run(ctx, rule, config_of(ctx, config, free), steps)


@harness(quick=[{"rule": r, "n": 3, "_weight": 4} for r in ("chain", "collapse", "mutual", "mixed", "swap", "unary_pair", "loop")],
         thorough=[{"rule": r, "n": 4, "_weight": 9} for r in ("chain", "mutual", "mixed", "path3")], path_seconds=60)
def any_shape(ctx, rule, n):
    """every arity of every relation, small labels"""
    config = []
    for i in range(n):
        m = ctx.choice("arity", [1, 2] if n > 2 else [1, 2, 3])
        config.append([ctx.choice("n", [4, 1]) for _ in range(m)])
    run(ctx, rule, config, 1)


@harness(quick=[{"rule": "binary", "steps": 5, "extra": 2}, {"rule": "swap", "steps": 4, "extra": 12}, {"rule": "two_new", "steps": 4, "extra": 2}, {"rule": "ternary", "steps": 4, "extra": 6},
                {"rule": "loop", "steps": 3, "extra": 9}, {"rule": "unary", "steps": 4, "extra": 9}],
         thorough=[{"rule": "binary", "steps": 7, "extra": 3, "_weight": 9}, {"rule": "unary", "steps": 7, "extra": 20, "_weight": 9}], path_seconds=60)
def larger(ctx, rule, steps, extra):
    """larger configurations and more steps with rules that have one relation on the left side; two arbitrary labels"""
    a, b = ctx.opaque("a", 1), ctx.opaque("b", 1)
    config = [[a, b], [b], [a, a, b], [5, a]]
    for i in range(extra):
        config.append([i * i % 17 + 1, (3 * i + 2) % 11 + 1, i % 4 + 9][:1 + (i + 1) % 3])
    run(ctx, rule, config, steps)
