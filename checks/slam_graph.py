"""C18: the graph back end."""
import vf

TR = ("TraceSlamGraph", "TraceSlamGraph.cfg")
SRC = ["src/slam_optimizer/max_mixture/edge_se2_mixture.cpp"] + [
    "src/slam_optimizer/switchable_constraints/%s.cpp" % s for s in ("edge_se2Switchable", "edge_switchPrior", "vertex_switchLinear")]
LIBS = vf.G2O_LIBS + ["-lg2o_csparse_extension", "-lg2o_solver_csparse", "-lcxsparse"]
TRUTH = [(1, 2, 0, 0), (6, 3, 1, 0), (7, 9, -1, 1), (2, 12, 0, 2)]


def pose(r, t, off):
    if not off:
        return ["pose"] + list(t) + [0, 0, 0]
    return ["pose"] + list(t) + [r.randint(-400, 400), r.randint(-400, 400), r.randint(-250000, 250000)]


def dress(walk, r):
    ops = [["limits", r.choice([1, 4, 20]), r.choice([3, 8, 30])]] if r.random() < 0.8 else []
    for op in walk:
        if op[0] == "pose":
            ops.append(pose(r, TRUTH[op[1]], op[2]))
        elif op[0] in ("constrain", "last"):
            ops.append(op + [0, 0, 0])
        elif op[0] == "close":
            ops.append(op[:2] + list(op[2]))
        elif op[0] == "optimise":
            ops += [["optimise", r.randint(0, 1)]] + ([["draw"]] if r.random() < 0.4 else [])
        else:
            ops.append(op)
    return ops + [["draw"]]


def drive(r):
    """a robot driving about: poses chained by odometry, loops closed now and then"""
    n, noisy = r.randint(3, 9), r.random() < 0.4
    x, y, k = r.randint(-9, 9), r.randint(-9, 9), r.randint(0, 3)
    ops = [["limits", r.choice([1, 6, 12, 20]), r.choice([3, 8, 15, 30])], ["score", r.randint(0, 9)]]
    t, tied = [], []
    noise = lambda: [r.randint(-30, 30), r.randint(-30, 30), r.randint(-8000, 8000)] if noisy else [0, 0, 0]
    for i in range(n):
        t.append((x, y, r.randint(-1, 1), k))
        ops.append(pose(r, t[-1], i and r.random() < 0.7))
        if i == 0:
            tied.append(0)
        elif i - 1 in tied and r.random() < 0.8:
            ops.append(["last"] + noise())
            tied.append(i)
        elif r.random() < 0.85:
            j = r.choice(tied)
            ops.append(["constrain"] + ([j, i] if r.random() < 0.7 else [i, j]) + noise())
            tied.append(i)
        if len(tied) > 1 and r.random() < 0.3:
            a, b = r.sample(tied, 2)
            ops.append(["constrain", a, b] + noise())
        if r.random() < 0.4:
            q = r.choice(tied)
            if r.random() < 0.5 and i in tied:
                q = -1
            ops.append(["close", q] + [a for a in tied if a != q and r.random() < 0.7])
        if r.random() < 0.25:
            ops.append(["optimise", r.randint(0, 1)])
        if r.random() < 0.15:
            ops.append(["draw"])
        dx, dy = r.choice([(5, 1), (3, -2), (1, 6), (-2, 4), (6, 6)])
        for _ in range(k):
            dx, dy = -dy, dx
        x, y, k = x + dx, y + dy, (k + r.choice([0, 0, 1, 3])) % 4
    return ops + [["optimise", 0], ["draw"]]


def run(ctx):
    r = ctx.rng
    b = vf.bg(vf.build, ctx, "slam_graph", ["slam_graph.cpp"], SRC, shims=True, libs=LIBS)

    def mc(tag, nn, mcons, dump):
        return vf.model_check(ctx, "MCSlamGraph", {
            "text": "SPECIFICATION Spec\nINVARIANTS Hangs FirstStays AllSatisfied\nPROPERTY Undisturbed\nCHECK_DEADLOCK FALSE\n",
            "consts": {"Truth": "<< %s >>" % ", ".join("Pose(%d, %d, %d, %d)" % t for t in TRUTH[:nn]), "MaxCons": str(mcons),
                       "Oks": "{<<0, 1>>, <<2>>}"}}, tag,
            must_take=["AddPose", "AddCons", "AddLast", "Close", "Optimise"], dump=dump, workers=4, timeout=850, cover=not dump)
    big = vf.bg(mc, "big", ctx.pick(3, 4), 3, False)
    dot = mc("mc", 3, 2, True)
    init, succ = vf.load_graph(dot)
    walks, cov, total = vf.covering_walks(init, succ, r, limit=ctx.pick(3000, 40000), maxlen=30)
    ctx.notes.update({"model_transitions": total, "model_transitions_replayed": cov})
    s = [dress(w, r) for w in walks] + [drive(r) for _ in range(ctx.pick(300, 4000))]
    ev = vf.run_harness(ctx, b(), s)
    vf.validate(ctx, *TR, ev, "tr", "graph back end", s, jobs=7, timeout=800)
    big()

    def corrupt(evs):
        for e in evs:
            if e["op"] == "optimise" and len(e["poses"]) > 1 and e["cons"]:
                i = e["cons"][0]["t"]
                if i:
                    e["poses"][i][0] += 5
                    e["told"][i][1] += 5
                    return True
    vf.binding_selftest(ctx, *TR, ev, corrupt, "self")
