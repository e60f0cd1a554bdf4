"""C32: the turtle."""
from sx.harness import harness

BOUNDS = ("every sequence of up to 4 operations (forward, rotate, push, pop; 5 in thorough) with arbitrary real distances and angles "
          "from an arbitrary real position and orientation (sine and cosine uninterpreted); L-system states of up to 3 symbols (4 in "
          "thorough) with bindings of every kind; "
          "words of 24 operations (thorough: 80); stacks of 40 states (150); two turtles in turns.")

OUTSIDE = "rounding of floating point arithmetic; what plot and animate draw (C49); pops of an empty stack."


class Model:
    def __init__(self, x, y, o):
        self.x, self.y, self.o, self.stack, self.segments = x, y, o, [], []

    def forward(self, m, d):
        a = m.radians(self.o)
        x, y = self.x + d * m.sin(a), self.y + d * m.cos(a)
        self.segments.append(([self.x, x], [self.y, y]))
        self.x, self.y = x, y


def compare(ctx, turtle, model):
    ctx.close("the position", list(turtle.pos), [model.x, model.y])
    ctx.close("the coordinates and the orientation", [turtle.x, turtle.y, turtle.orientation], [model.x, model.y, model.o])
    ctx.close("the segments", [[list(a), list(b)] for a, b in turtle.trajectory], [list(s) for s in model.segments])


def operate(ctx, turtle, model, i):
    op = ctx.choice("op", ["forward", "rotate", "push"] + (["pop"] if model.stack else []))
    if op == "forward":
        if ctx.flag("default"):
            turtle.forward()
            model.forward(ctx.math, 1)
        else:
            d = ctx.real("d%d" % i)
            turtle.forward(d)
            model.forward(ctx.math, d)
    elif op == "rotate":
        a = ctx.real("a%d" % i)
        turtle.rotate(a)
        model.o = model.o + a
    elif op == "push":
        turtle.push()
        model.stack.append((model.x, model.y, model.o))
    else:
        turtle.pop()
        model.x, model.y, model.o = model.stack.pop()
    compare(ctx, turtle, model)


@harness(quick=[{"n": 3}, {"n": 4, "_weight": 9}], thorough=[{"n": 5, "_weight": 9}], math=True)
def operations(ctx, n):
    """every sequence of operations"""
    x, y, o = ctx.real("x"), ctx.real("y"), ctx.real("o")
    turtle = ctx.ntm.Turtle(x, y, o)
    model = Model(x, y, o)
    for i in range(n):
        operate(ctx, turtle, model, i)
    ctx.close("the distance from the origin", turtle.abs, ctx.math.sqrt(model.x * model.x + model.y * model.y))


@harness(quick=[{}], math=True)
def nested_stack(ctx):
    """push and pop are a stack: last in, first out"""
    turtle = ctx.ntm.Turtle(start_orientation=ctx.real("o"))
    model = Model(0, 0, turtle.orientation)
    states = []
    for k in range(3):
        turtle.push()
        states.append((model.x, model.y, model.o))
        d, a = ctx.real("d%d" % k), ctx.real("a%d" % k)
        turtle.forward(d)
        model.forward(ctx.math, d)
        turtle.rotate(a)
        model.o = model.o + a
    for k in range(3):
        turtle.pop()
        model.x, model.y, model.o = states.pop()
        compare(ctx, turtle, model)


@harness(quick=[{"n": 2}, {"n": 3, "_weight": 5}], thorough=[{"n": 4, "_weight": 9}], math=True)
def l_system(ctx, n):
    """rendering a state runs the instructions bound to its symbols, in order, then plots"""
    ntm = ctx.ntm
    calls = []

    class T(ntm.Turtle):
        def plot(self, *a, **k):
            calls.append(("plot", k, len(self.trajectory)))

        def animate(self, *a, **k):
            calls.append(("animate", k, len(self.trajectory)))
    turtle = T()
    d, a, b = ctx.real("d"), ctx.real("a"), ctx.real("b")
    bindings = {"F": turtle.forward, "G": (turtle.forward, d), "+": [(turtle.rotate, a)], "-": (turtle.rotate, b),
                "[": [turtle.push, (turtle.rotate, a), turtle.forward], "]": [(turtle.rotate, b), turtle.pop, (turtle.forward, d)], "X": []}
    word = [ctx.choice("s", ["F", "G", "+", "-", "[", "]", "X"]) for _ in range(n)]
    depth = 0
    for s in word:
        depth += {"[": 1, "]": -1}.get(s, 0)
        ctx.assume(depth >= 0)
    labels = [11, 2, 30, 104][:n]
    activities = {k: word[sorted(labels).index(k)] for k in labels}
    model = Model(0, 0, 0)
    for s in word:
        for op in {"F": [("f", 1)], "G": [("f", d)], "+": [("r", a)], "-": [("r", b)], "[": [("push",), ("r", a), ("f", 1)],
                   "]": [("r", b), ("pop",), ("f", d)], "X": []}[s]:
            if op[0] == "f":
                model.forward(ctx.math, op[1])
            elif op[0] == "r":
                model.o = model.o + op[1]
            elif op[0] == "push":
                model.stack.append((model.x, model.y, model.o))
            else:
                model.x, model.y, model.o = model.stack.pop()
    animate = ctx.flag("animate")
    (ntm.animate_L_system if animate else ntm.plot_L_system)(ntm.State(activities), turtle, bindings, marker="o")
    compare(ctx, turtle, model)
    ctx.check("drawn once, at the end, as asked", calls == [("animate" if animate else "plot", {"marker": "o"}, len(model.segments))])


@harness(quick=[{"n": 24, "_weight": 3}], thorough=[{"n": 80, "_weight": 9}], math=True)
def long_words(ctx, n):
    """long sequences of operations with deep stacks"""
    x, y, o = ctx.real("x"), ctx.real("y"), ctx.real("o")
    turtle, model = ctx.ntm.Turtle(x, y, o), Model(x, y, o)
    word = [("F", "[", "+", "F", "F", "[", "-", "f", "[", "+", "F", "]", "F", "]", "-", "]")[(i + i // 16) % 16] for i in range(n)]
    d, a = ctx.real("d"), ctx.real("a")
    for s in word:
        if s in "Ff":
            turtle.forward(*([d] if s == "f" else []))
            model.forward(ctx.math, d if s == "f" else 1)
        elif s in "+-":
            turtle.rotate(a if s == "+" else -a)
            model.o = model.o + (a if s == "+" else -a)
        elif s == "[":
            turtle.push()
            model.stack.append((model.x, model.y, model.o))
        elif model.stack:
            turtle.pop()
            model.x, model.y, model.o = model.stack.pop()
    compare(ctx, turtle, model)


@harness(quick=[{"depth": 40}], thorough=[{"depth": 150}], math=True)
def deep_stack(ctx, depth):
    """many states pushed, then popped; an arbitrary rotation and distance at the bottom and near the top"""
    turtle, model = ctx.ntm.Turtle(), Model(0, 0, 0)
    for k in range(depth):
        turtle.push()
        model.stack.append((model.x, model.y, model.o))
        a = ctx.real("a%d" % k) if k in (0, depth - 5) else k
        turtle.rotate(a)
        model.o = model.o + a
        if k % 4 == 1:
            turtle.forward(k)
            model.forward(ctx.math, k)
    for k in range(depth):
        turtle.pop()
        model.x, model.y, model.o = model.stack.pop()
        ctx.close("the state that was pushed", [turtle.x, turtle.y, turtle.orientation], [model.x, model.y, model.o])
    compare(ctx, turtle, model)


@harness(quick=[{"n": 4}, {"n": 5, "_weight": 5}], thorough=[{"n": 6, "_weight": 9}], math=True)
def two_turtles(ctx, n):
    """two turtles at work in turns, each with its own state, stack and trajectory"""
    turtles = [ctx.ntm.Turtle(), ctx.ntm.Turtle(1, 2, 90)]
    models = [Model(0, 0, 0), Model(1, 2, 90)]
    for i in range(n):
        j = int(ctx.flag("which"))
        op = ctx.choice("op", ["step", "push"] + (["pop"] if models[j].stack else []))
        t, m = turtles[j], models[j]
        if op == "step":
            d = ctx.real("d%d" % i)
            t.rotate(d)
            t.forward(2)
            m.o = m.o + d
            m.forward(ctx.math, 2)
        elif op == "push":
            t.push()
            m.stack.append((m.x, m.y, m.o))
        else:
            t.pop()
            m.x, m.y, m.o = m.stack.pop()
    for t, m in zip(turtles, models):
        compare(ctx, t, m)
