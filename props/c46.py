"""C46: one step of the Hopfield-Tank network follows its equation."""
from sx.harness import harness

BOUNDS = ("2 and 3 points (4 and 9 nodes; thorough: 4 points) with 4 arbitrary activities, arbitrary dt, A, B, C, D and n (one after the "
          "other arbitrary, the others fixed), one and two steps through evolve; tanh is an uninterpreted function, distances are those of fixed points; "
          "one node of 4 and 11 points (thorough: 20); three points up to millions apart or at one place.")

OUTSIDE = "rounding of floating point (compared up to 1e-6); convergence (C44)."

POINTS = [(0, 0), (3, 4), (6, 0), (-2, 7)]


@harness(quick=[{"n": 2, "steps": 1}, {"n": 3, "steps": 1, "_weight": 3}, {"n": 2, "steps": 2, "_weight": 3}], thorough=[{"n": 4, "steps": 1, "_weight": 9}, {"n": 3, "steps": 2, "_weight": 9}], math=True)
def equation(ctx, n, steps):
    """every node moves by dt times the motion equation of Hopfield and Tank"""
    ntm = ctx.ntm
    pts = POINTS[:n]
    par = {"dt": 0.5, "A": 2.0, "B": 3.0, "C": 0.25, "D": 0.5, "n": 5}
    k = ctx.choice("parameter", sorted(par))
    par[k] = ctx.real(k, 0, 4)
    u0 = 0.5
    h = ntm.HopfieldTankTSPNet(pts, u_0=u0, **par)
    net = ntm.topology.from_adjacency_matrix(h.adjacency_matrix)
    ctx.check("one node for each point and position", set(net.nodes) == set(range(n * n)))
    u = [0.125 * (i - 2) for i in range(n * n)]
    first = int(ctx.int("first", 0, n * n - 1))
    for j in (0, 1, n, n + 2):
        u[(first + j) % (n * n)] = ctx.real("u%d" % j, -2, 2)
    traj = ntm.evolve(initial_conditions=list(u), network=net, activity_rule=h.activity_rule, timesteps=steps + 1)
    d = [[ctx.math.sqrt((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2) for q in pts] for p in pts]
    for t in range(1, steps + 1):
        V = [[(1 + ctx.math.tanh(u[x * n + i] / u0)) / 2 for i in range(n)] for x in range(n)]
        total = sum(V[x][i] for x in range(n) for i in range(n))
        out = []
        for x in range(n):
            for i in range(n):
                row = sum(V[x][j] for j in range(n) if j != i)
                col = sum(V[y][i] for y in range(n) if y != x)
                near = sum(d[x][y] * (V[y][(i + 1) % n] + V[y][(i - 1) % n]) for y in range(n) if y != x)
                du = -u[x * n + i] - par["A"] * row - par["B"] * col - par["C"] * (total - par["n"]) - par["D"] * near
                out.append(u[x * n + i] + par["dt"] * du)
        got = [traj[t].activities[i] for i in range(n * n)]
        ctx.near("activities after the step", got, out, 1e-6)
        u = got


@harness(quick=[{"n": 4}, {"n": 11}], thorough=[{"n": 20}], math=True)
def larger(ctx, n):
    """more points: the distance between every two, and one node's step"""
    ntm = ctx.ntm
    pts = [((7 * i * i + 3) % 23, (5 * i + i * i * i) % 19 - 9) for i in range(n)]
    h = ntm.HopfieldTankTSPNet(pts, dt=0.5, A=2.0, B=3.0, C=0.25, D=0.5, n=n + 3, u_0=0.5)
    net = ntm.topology.from_adjacency_matrix(h.adjacency_matrix)
    ctx.check("one node for each point and position", set(net.nodes) == set(range(n * n)))
    u = [0.125 * ((i * i) % 9 - 4) for i in range(n * n)]
    node = ctx.choice("node", [0, n * n - 1, n + 2, n * (n - 1), n - 1])
    u[node] = ctx.real("u", -2, 2)
    u[(node + n + 1) % (n * n)] = ctx.real("v", -2, 2)

    class Only:
        """the activity rule, for one of the nodes"""
        def __call__(self, c):
            return h.activity_rule(c) if c.node_label == node else c.current_activity
    traj = ntm.evolve(initial_conditions=list(u), network=net, activity_rule=Only(), timesteps=2)
    x, i = divmod(node, n)
    V = [[(1 + ctx.math.tanh(u[a * n + b] / 0.5)) / 2 for b in range(n)] for a in range(n)]
    d = [ctx.math.sqrt((pts[x][0] - q[0]) ** 2 + (pts[x][1] - q[1]) ** 2) for q in pts]
    near = sum(d[y] * (V[y][(i + 1) % n] + V[y][(i - 1) % n]) for y in range(n) if y != x)
    du = -u[node] - 2 * sum(V[x][j] for j in range(n) if j != i) - 3 * sum(V[y][i] for y in range(n) if y != x) - \
        0.25 * (sum(sum(r) for r in V) - n - 3) - 0.5 * near
    ctx.near("activity after the step", traj[1].activities[node], u[node] + 0.5 * du, 1e-6)


@harness(quick=[{"n": 3}], thorough=[{"n": 5}], math=True)
def anywhere(ctx, n):
    """points far from the origin and from one another, points at the same place"""
    ntm = ctx.ntm
    pts = [(12345, -70000), (12345, -70000), (0.001, 99999.5), (-4e6, 3), (5, 5)][:n]
    h = ntm.HopfieldTankTSPNet(pts, dt=0.5, A=0.0, B=0.0, C=0.0, D=1.0, n=n, u_0=0.5)
    net = ntm.topology.from_adjacency_matrix(h.adjacency_matrix)
    u = [0.125 * ((i * i) % 9 - 4) for i in range(n * n)]
    k = ctx.choice("k", range(n * n))
    u[k] = ctx.real("u", -2, 2)
    traj = ntm.evolve(initial_conditions=list(u), network=net, activity_rule=h.activity_rule, timesteps=2)
    V = [[(1 + ctx.math.tanh(u[a * n + b] / 0.5)) / 2 for b in range(n)] for a in range(n)]
    d = [[ctx.math.sqrt((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2) for q in pts] for p in pts]
    for x in range(n):
        for i in range(n):
            near = sum(d[x][y] * (V[y][(i + 1) % n] + V[y][(i - 1) % n]) for y in range(n) if y != x)
            ctx.near("activity after the step", traj[1].activities[x * n + i], u[x * n + i] + 0.5 * (-u[x * n + i] - near), 1e-4)
