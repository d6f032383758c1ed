"""C24: lookup table and correlative search."""
import vf

TR = ("TraceCorrelation", "TraceCorrelation.cfg")


def flat(c):
    return [x for p in c for x in p]


def cloud(r, n, m):
    return [(r.randint(-m, m), r.randint(-m, m)) for _ in range(n)]


def table(r, c, step=None):
    return ["table", step or r.choice([1, 1, 2, 4]), r.choice([4, 4, 8, 2])] + flat(c)


def turn(k, p):
    x, y = p
    for _ in range(k % 4):
        x, y = -y, x
    return x, y


def drive(r):
    ops = []
    for _ in range(r.randint(1, 4)):
        # sometimes all on one side of the origin, sometimes in a row, sometimes several points in a cell
        t = cloud(r, r.choice([0, 1, 2, 5, 12, 30]), r.choice([1, 4, 15]))
        s = r.choice([0, 0, 1, 2])
        if s:
            t = [(abs(x) if s == 1 else x, -abs(y)) for x, y in t]
        if r.random() < 0.3:
            t = t + t[:r.randint(0, 4)]
        ops.append(table(r, t))
        for _ in range(r.randint(2, 6)):
            q = r.random()
            if q < 0.5:
                d = (r.randint(-4, 4), r.randint(-4, 4))
                c = [(x - d[0], y - d[1]) for x, y in t if r.random() < 0.8] if r.random() < 0.6 else []
                ops.append(["score"] + list(d) + flat(c + cloud(r, r.randint(0, 5), 20)))
            elif t:
                k, n = r.randint(0, 3), r.choice([1, 2, 3, 5])
                g = (r.randint(-5, 5), r.randint(-5, 5), k)
                d = (r.randint(-n, n - 1), r.randint(-n, n - 1))
                # guess and then d lead to the target
                c = [turn(-k, (x - d[0] - g[0], y - d[1] - g[1])) for x, y in t if r.random() < 0.9]
                c += cloud(r, r.choice([0, 0, 1, 5]), 12)
                if not c:
                    continue
                ops.append(["search", n, r.randint(1, 4)] + list(g) + flat(c))
    return ops


def rotated(r):
    t = list(set(cloud(r, r.randint(6, 25), r.choice([6, 15, 25]))))
    ops = [table(r, t, r.choice([1, 2]))]
    for _ in range(3):
        n = r.choice([1, 2, 4])
        ops.append(["turned", n, r.randint(1, 4), r.randint(-5, 5), r.randint(-5, 5), r.randint(0, 3),
                    r.randint(-n, n - 1), r.randint(-n, n - 1), r.choice([-2, -1, 0, 1])])
    return ops


def shapes(r):
    ops = []
    for _ in range(4):
        at = [r.randint(-30, 30), r.randint(-30, 30)]
        ops.append(["blur", r.choice([1, 2, 4]), r.choice([2, 4, 8, 16])] + at)
        ops.append(["twice", r.choice([1, 2, 4]), r.choice([2, 4, 8, 16])] + at + [r.randint(-3, 3), r.choice([-2, -1, 1, 3])])
        ops.append(["kernel", r.choice([1, 2, 3, 4, 8, 16]), r.choice([1, 2, 4, 8, 16, 24, 40]), r.choice([100, 100, 200, 254, 10])])
    return ops


def run(ctx):
    r = ctx.rng
    b = vf.bg(vf.build, ctx, "correlation", ["correlation.cpp"], shims=True)
    dot = vf.model_check(ctx, "MCCorrelation", {
        "text": "SPECIFICATION Spec\nINVARIANTS Full NoBetter Recovered\nCHECK_DEADLOCK FALSE\n",
        "consts": {"Width": "1", "Height": ctx.pick("2", "3"), "Shifts": "(-1 .. 1) \\X (-1 .. 1)", "R": "2"}}, "mc",
        must_take=["Enter", "Score", "Search", "Again"], dump=True, workers=4)
    init, succ = vf.load_graph(dot)
    walks, cov, total = vf.covering_walks(init, succ, r, limit=ctx.pick(20000, 200000), maxlen=200)
    ctx.notes.update({"model_transitions": total, "model_transitions_replayed": cov})

    def concrete(w):
        out = []
        for o in w:
            if o[0] == "table":
                out.append(["table", 1, 4] + flat(o[1]))
            elif o[0] == "score":
                out.append(["score"] + list(o[2]) + flat(o[1]))
            elif o[0] == "search":
                out.append(["search", o[2], 2, 0, 0, 0] + flat(o[1]))
            else:
                out.append(list(o))
        return out
    s = [concrete(w) for w in walks] + [drive(r) for _ in range(ctx.pick(250, 4000))]
    s += [rotated(r) for _ in range(ctx.pick(80, 1200))] + [shapes(r) for _ in range(ctx.pick(12, 100))]
    ev = vf.run_harness(ctx, b(), s)
    vf.validate(ctx, *TR, ev, "tr", "correlative search", s, jobs=7)

    def corrupt(evs):
        for e in evs:
            if e["op"] == "search" and len(e["cloud"]) == 1:
                e["delta"][0] += 1000
                e["out"][0][0] += 1000
                return True
    vf.binding_selftest(ctx, *TR, ev, corrupt, "self")
