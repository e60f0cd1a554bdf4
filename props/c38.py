"""C38: entropies of strings."""
import math
from sx.harness import harness
from .c06 import decided_eq

BOUNDS = ("strings of 1 to 6 arbitrary printable characters (one solver variable each, every equality pattern; pairs of strings with up to 4 letters each), "
          "lists of such strings; thorough: one letter more; "
          "strings of 24 (thorough: 40) letters, one of them arbitrary; strings of 200 and 300 letters (thorough: 700) with a rare letter anywhere; "
          "pairs of lists of texts of several characters that begin and end alike.")

OUTSIDE = "empty strings; longer strings; rounding (compared up to 1e-9)."


def classes(items):
    """the groups of equal items: positions by first occurrence"""
    groups = []
    for i, x in enumerate(items):
        for g in groups:
            if decided_eq(items[g[0]], x):
                g.append(i)
                break
        else:
            groups.append([i])
    return groups


def entropy(groups, n):
    return sum(-(len(g) / n) * math.log2(len(g) / n) for g in groups)


def joint(a, b):
    n = sum(len(g) for g in a)
    return entropy([c for c in ([i for i in g if i in h] for g in a for h in b) if c], n)


def word(ctx, name, n, kind):
    return ctx.string(name, n, 32, 126) if kind == "letters" else [ctx.string(name + "_%d" % i, 1 if i % 2 else 2) for i in range(n)]


@harness(quick=[{"n": 1, "kind": "letters"}, {"n": 3, "kind": "letters"}, {"n": 5, "kind": "letters", "_weight": 2}, {"n": 6, "kind": "letters", "_weight": 4}, {"n": 4, "kind": "list"}],
         thorough=[{"n": 8, "kind": "letters", "_weight": 9}, {"n": 6, "kind": "list", "_weight": 9}])
def shannon(ctx, n, kind):
    """the entropy of every string"""
    s = word(ctx, "s", n, kind)
    h = ctx.ntm.shannon_entropy(s)
    g = classes(list(s))
    ctx.near("the entropy", h, entropy(g, n))
    ctx.check("between 0 and log2 of the number of symbols", -1e-9 <= h <= math.log2(len(g)) + 1e-9)
    if n > 1:
        k = int(ctx.int("rotation", 1, n - 1))
        ctx.near("reordered", ctx.ntm.shannon_entropy(s[k:] + s[:k]), h)


@harness(quick=[{"n": 1}, {"n": 2}, {"n": 3, "_weight": 3}, {"n": 4, "_weight": 9}], thorough=[{"n": 5, "_weight": 9}])
def pairs(ctx, n):
    """joint entropy and mutual information of every pair of strings"""
    ntm = ctx.ntm
    x, y = ctx.string("x", n, 32, 126), ctx.string("y", n, 32, 126)
    gx, gy = classes(list(x)), classes(list(y))
    hx, hy, hxy = entropy(gx, n), entropy(gy, n), joint(gx, gy)
    ctx.near("joint entropy", ntm.joint_shannon_entropy(x, y), hxy)
    ctx.near("joint entropy, the other way", ntm.joint_shannon_entropy(y, x), hxy)
    mi = ntm.mutual_information(x, y)
    ctx.near("mutual information", mi, hx + hy - hxy)
    ctx.near("mutual information, the other way", ntm.mutual_information(y, x), mi)
    ctx.check("not negative", mi >= -1e-9)


@harness(quick=[{"n": 1}, {"n": 3}, {"n": 5, "_weight": 3}], thorough=[{"n": 7, "_weight": 9}])
def identical(ctx, n):
    """a string and itself"""
    ntm = ctx.ntm
    x = ctx.string("x", n, 32, 126)
    h = entropy(classes(list(x)), n)
    ctx.near("joint entropy of a string and itself", ntm.joint_shannon_entropy(x, x), h)
    ctx.near("mutual information of a string and itself", ntm.mutual_information(x, x), h)


@harness(quick=[{"n": 24, "letters": 3}], thorough=[{"n": 40, "letters": 12, "_weight": 4}])
def long_strings(ctx, n, letters):
    """longer strings and larger alphabets, with an arbitrary character in each"""
    x, y = ["".join(chr(48 + (i * i * k + i // 3) % letters) for i in range(n - 1)) for k in (1, 3)]
    x, y = x[:n // 3] + ctx.string("x", 1, 47, 51) + x[n // 3:], y + ctx.string("y", 1, 49, 52)
    gx, gy = classes(list(x)), classes(list(y))
    hx, hy, hxy = entropy(gx, n), entropy(gy, n), joint(gx, gy)
    ctx.near("the entropy", ctx.ntm.shannon_entropy(x), hx)
    ctx.near("the entropy", ctx.ntm.shannon_entropy(y), hy)
    ctx.near("joint entropy", ctx.ntm.joint_shannon_entropy(x, y), hxy)
    ctx.near("mutual information", ctx.ntm.mutual_information(x, y), hx + hy - hxy)


@harness(quick=[{"n": 200}, {"n": 300}], thorough=[{"n": 700}])
def very_long(ctx, n):
    """strings of hundreds of letters: where the rare letters are does not matter"""
    x = ["abc d"[i * i % 5] for i in range(n)]
    y = [" b"[i % 2] for i in range(n)]
    k = ctx.choice("where", [0, n // 3, n - 2])
    x[k], y[k] = "Z", "Q"
    x[n - 1 - k // 2] = ctx.string("x", 1, 89, 91)[0]
    gx, gy = classes(x), classes(y)
    hx, hy, hxy = entropy(gx, n), entropy(gy, n), joint(gx, gy)
    x, y = "".join(x[:k]) + "".join(x[k:]) if not ctx.flag("lists") else x, "".join(y)
    ctx.near("the entropy", ctx.ntm.shannon_entropy(x), hx)
    ctx.near("the entropy", ctx.ntm.shannon_entropy(y), hy)
    ctx.near("joint entropy", ctx.ntm.joint_shannon_entropy(list(x), list(y)), hxy)
    ctx.near("mutual information", ctx.ntm.mutual_information(list(x), list(y)), hx + hy - hxy)


@harness(quick=[{"n": 2}, {"n": 3, "_weight": 4}], thorough=[{"n": 4, "_weight": 9}])
def lists_of_texts(ctx, n):
    """pairs of lists whose items are texts that agree in some of their characters"""
    texts = ["state 0 of 12", "state 0 of 13", "state 1 of 12", "s", ""]
    x, y = [ctx.choice("x", texts) for _ in range(n)], [ctx.choice("y", texts[1:4]) for _ in range(n)]
    gx, gy = classes(x), classes(y)
    hx, hy, hxy = entropy(gx, n), entropy(gy, n), joint(gx, gy)
    ctx.near("the entropy", ctx.ntm.shannon_entropy(x), hx)
    ctx.near("joint entropy", ctx.ntm.joint_shannon_entropy(x, y), hxy)
    ctx.near("mutual information", ctx.ntm.mutual_information(x, y), hx + hy - hxy)
