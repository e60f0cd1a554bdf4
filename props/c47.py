"""C47: drawing an L-system."""
from sx.harness import harness

BOUNDS = ("states of 1 to 5 arbitrary symbols out of 3, every kind of binding (a function, a function with one or two arguments, lists of "
          "these, an empty list, mixed), plot and animate; strings of 126 symbols, instructions with up to six arguments.")

OUTSIDE = "symbols without a binding; the drawing itself (the turtle is C32, its drawings C49)."


class Recorder:
    def __init__(self):
        self.calls, self.shown = [], []

    def fn(self, *a):
        self.calls.append(a)

    def zero(self):
        self.calls.append("zero")

    def plot(self, **kw):
        self.shown.append(("plot", dict(kw), len(self.calls)))

    def animate(self, **kw):
        self.shown.append(("animate", dict(kw), len(self.calls)))


def binding(ctx, rec, arg):
    """a binding and what it does"""
    k = ctx.choice("binding", [0, 1, 2, 3, 4])
    if k == 0:
        return rec.zero, ["zero"]
    if k == 1:
        return (rec.fn, arg), [(arg,)]
    if k == 2:
        return [rec.zero, (rec.fn, arg, 7), (rec.fn,)], ["zero", (arg, 7), ()]
    if k == 3:
        return [], []
    return (rec.fn, arg, arg + 1), [(arg, arg + 1)]


@harness(quick=[{"n": 1}, {"n": 3}], thorough=[{"n": 4, "_weight": 9}])
def drawing(ctx, n):
    """the instructions bound to the symbols are executed in the order of the string, then the drawing is shown once"""
    ntm = ctx.ntm
    rec = Recorder()
    arg = ctx.int("arg", -90, 90)
    symbols = ["F", "+", "X"]
    bindings, effect = {}, {}
    for s in symbols[:2]:
        bindings[s], effect[s] = binding(ctx, rec, arg)
    bindings["X"], effect["X"] = [rec.zero, rec.zero], ["zero", "zero"]
    word = "".join(ctx.choice("s", symbols) for _ in range(n))
    state = ntm.State(activities={i: s for i, s in enumerate(word)}, network=ntm.topology.cellular_automaton(n) if n > 2 else ntm.Network(n))
    kind = ctx.flag("animate")
    (ntm.animate_L_system if kind else ntm.plot_L_system)(state, rec, bindings, title="t")
    want = [e for s in word for e in effect[s]]
    ctx.eq("the instructions, in order", rec.calls, want)
    ctx.eq("shown once, after drawing, with the given options", rec.shown, [("animate" if kind else "plot", {"title": "t"}, len(want))])


@harness(quick=[{"n": 3}], thorough=[{"n": 10}])
def more_arguments(ctx, n):
    """many instructions with many arguments, and long strings"""
    ntm = ctx.ntm
    rec = Recorder()
    xs = tuple(ctx.int("x%d" % i, -9, 9) for i in range(6))
    bindings = {"A": (rec.fn,) + xs, "B": [(rec.fn,) + xs[:k] for k in range(7)] + [rec.zero] * 5, "C": rec.zero, "+": (rec.fn, xs, [1, 2])}
    effect = {"A": [xs], "B": [xs[:k] for k in range(7)] + ["zero"] * 5, "C": ["zero"], "+": [(xs, [1, 2])]}
    some = [ctx.choice("s", list(bindings)) for _ in range(n)]
    word = some + ["C", "+", "A", "B"] * 30 + some
    state = ntm.State(activities=dict(enumerate(word)), network=ntm.Network(len(word)))
    kind = ctx.flag("animate")
    (ntm.animate_L_system if kind else ntm.plot_L_system)(state, rec, bindings)
    want = [e for s in word for e in effect[s]]
    ctx.eq("the instructions, in order", rec.calls, want)
    ctx.eq("shown once, after drawing", rec.shown, [("animate" if kind else "plot", {}, len(want))])
