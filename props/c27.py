"""C27: Langton's loop."""
import itertools
from sx.harness import harness
from .c26 import Ctx, turns

BOUNDS = ("the whole rule table: all 8^5 neighbourhoods of arbitrary states in one formula; the rule's lookup on neighbourhoods "
          "with three arbitrary states; one loop at every position on a 12x17 grid, two loops on a 13x30 and a 23x16 grid.")

OUTSIDE = "loops that overlap or leave the grid; what the loops grow into after many steps."

# C. G. Langton (1984): centre, top, right, bottom, left -> image, all quarter-turns implied
PUBLISHED = """
000000 000012 000020 000030 000050 000063 000071 000112 000122 000132 000212 000220 000230 000262 000272 000320 000525 000622
000722 001022 001120 002020 002030 002050 002125 002220 002322 005222 012321 012421 012525 012621 012721 012751 014221 014321
014421 014721 016251 017221 017255 017521 017621 017721 025271 100011 100061 100077 100111 100121 100211 100244 100277 100511
101011 101111 101244 101277 102026 102121 102211 102244 102263 102277 102327 102424 102626 102644 102677 102710 102727 105427
111121 111221 111244 111251 111261 111277 111522 112121 112221 112244 112251 112277 112321 112424 112621 112727 113221 122244
122277 122434 122547 123244 123277 124255 124267 125275 200012 200022 200042 200071 200122 200152 200212 200222 200232 200242
200250 200262 200272 200326 200423 200517 200522 200575 200722 201022 201122 201222 201422 201722 202022 202032 202052 202073
202122 202152 202212 202222 202272 202321 202422 202452 202520 202552 202622 202722 203122 203216 203226 203422 204222 205122
205212 205222 205521 205725 206222 206722 207122 207222 207422 207722 211222 211261 212222 212242 212262 212272 214222 215222
216222 217222 222272 222442 222462 222762 222772 300013 300022 300041 300076 300123 300421 300622 301021 301220 302511 401120
401220 401250 402120 402221 402326 402520 403221 500022 500215 500225 500232 500272 500520 502022 502122 502152 502220 502244
502722 512122 512220 512422 512722 600011 600021 602120 612125 612131 612225 700077 701120 701220 701250 702120 702221 702251
702321 702525 702720
""".split()

LOOP = [" 22222222",
        "2170140142",
        "2022222202",
        "272    212",
        "212    212",
        "202    212",
        "272    212",
        "21222222122222",
        "207107107111112",
        " 2222222222222"]


def published():
    table = {}
    for r in PUBLISHED:
        d = tuple(int(x) for x in r)
        for t in turns(d[:5]):
            assert table.setdefault(t, d[5]) == d[5]
    return table


def lookup(ctx, key, table):
    """the table as a formula: -1 where it has no entry"""
    out = -1
    for k, x in sorted(table.items()):
        n = 0
        for y in k:
            n = 8 * n + y
        out = ctx.ite(key == n, x, out)
    return out


@harness(quick=[{}])
def table(ctx):
    """the published table and its quarter-turns, nothing more, nothing else"""
    loop = ctx.ntm.LangtonsLoop((12, 17))
    c = ctx.ints("c", 5, 0, 7)
    key = 0
    for x in c:
        key = 8 * key + x
    key_ = key + 0
    ctx.eq("the published image of every neighbourhood", lookup(ctx, key_, loop.rule_table), lookup(ctx, key_, published()))


@harness(quick=[{"bl": [2, 2]}, {"bl": [0, 2]}, {"bl": [7, 0]}, {"bl": [0, 0]}, {"bl": [2, 1]}],
         thorough=[{"bl": [b, l]} for b in range(8) for l in range(8)], path_seconds=30)
def rule(ctx, bl):
    """what the rule returns for a neighbourhood; undefined ones fail"""
    loop = ctx.ntm.LangtonsLoop((12, 17))
    want = published()
    key = tuple(int(ctx.int("c%d" % i, 0, 7)) for i in range(3)) + tuple(bl)
    if key in want:
        ctx.eq("the published image", loop.activity_rule(Ctx(list(key))), want[key])
    else:
        ctx.raises("an undefined neighbourhood fails", lambda: loop.activity_rule(Ctx(list(key))))


def expected(rows, cols, places):
    grid = [[0] * cols for _ in range(rows)]
    for r, c in places:
        for i, line in enumerate(LOOP):
            for j, x in enumerate(line):
                if x != " ":
                    grid[r + i][(c - 1 + j) % cols] = int(x)
    return [x for row in grid for x in row]


@harness(quick=[{"rows": 12, "cols": 17}], thorough=[{"rows": 25, "cols": 40}])
def one_loop(ctx, rows, cols):
    """every position"""
    loop = ctx.ntm.LangtonsLoop((rows, cols))
    r, c = ctx.int("row", 0, rows - 10), ctx.int("col", 0, cols - 14)
    r, c = int(r), int(c)
    got = loop.init_loops(1, [r], [c])
    ctx.eq("the published loop", [int(x) for x in got], expected(rows, cols, [(r, c)]))


@harness(quick=[{"rows": 13, "cols": 32, "across": True}, {"rows": 23, "cols": 16, "across": False}])
def two_loops(ctx, rows, cols, across):
    """each loop at its own position; n = 0 gives an empty grid"""
    loop = ctx.ntm.LangtonsLoop((rows, cols))
    if across:
        p = [(int(ctx.int("r0", 0, 3)), int(ctx.int("c0", 1, 2))), (int(ctx.int("r1", 0, 3)), 17 + int(ctx.int("c1", 0, 1)))]
    else:
        p = [(int(ctx.int("r0", 0, 2)), int(ctx.int("c0", 1, 2))), (12 + int(ctx.int("r1", 0, 1)), int(ctx.int("c1", 1, 2)))]
    if ctx.flag("swap"):
        p.reverse()
    got = loop.init_loops(2, [x[0] for x in p], [x[1] for x in p])
    ctx.eq("both loops", [int(x) for x in got], expected(rows, cols, p))
    ctx.eq("no loop", [int(x) for x in loop.init_loops(0, [], [])], [0] * (rows * cols))
