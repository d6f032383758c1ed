"""C14 C15 C16 C25: pose algebra, covariance helpers, string splitting, line search."""
import itertools
import vf

TR = ("TracePlanar", "TracePlanar.cfg")


def mc(ctx, tag, mode, motions, bound, strings, tokens, rng, take, dump=True):
    seqs = lambda l: "{" + ",".join("<<" + ",".join(map(str, x)) + ">>" for x in l) + "}"
    c = {"Motions": "{" + ",".join("Pose(%d,%d,%d,%d)" % m for m in motions) + "}", "Bound": str(bound), "Others": "{Pose(0,1,0,3),Pose(2,-1,1,2)}",
         "Mode": '"%s"' % mode, "Strings": seqs(strings), "Tokens": seqs(tokens), "Range": rng, "NR": "3"}
    return vf.model_check(ctx, "MCPlanar", {"text": "SPECIFICATION Spec\nINVARIANTS Group Joins Bracket\nCHECK_DEADLOCK FALSE\n",
                                            "consts": c}, tag, must_take=take, dump=dump, workers=4)


def pose(r, m=20, big=False):
    return [r.randint(-m, m), r.randint(-m, m), r.choice([0, 0, 0, 1, -1]), r.randint(-12, 12) if big else r.randint(-2, 2)]


def pose_script(r, n):
    ops, tri = [], {1: 0, 2: 0, 3: 0}
    for i in (1, 2, 3):
        p = pose(r, big=True)
        tri[i] = p[2]
        ops.append(["set", i] + p)
    while len(ops) < n:
        o = r.choice(["set", "concat", "concat", "add", "rel", "rel", "conv", "err", "err", "norm"])
        i, j = r.randint(1, 3), r.randint(1, 3)
        if o == "set":
            p = pose(r, big=True)
            tri[i] = p[2]
            ops.append([o, i] + p)
        elif o in ("concat", "add"):
            p = pose(r, 9)
            if p[2] and abs(tri[i]) == 1:
                p[2] = 0 if tri[i] == p[2] or o == "concat" else p[2]
            tri[i] += p[2]
            ops.append([o, i] + p)
        elif o == "rel":
            ops.append([o, i, j])
        elif o == "err":
            ops.append([o, i, j] + pose(r, 9))
        else:
            ops.append([o, i])
    return ops


def sym(r):
    # A A' is positive semidefinite
    a = [[r.randint(-3, 3) for _ in range(3)] for _ in range(3)]
    m = [[sum(a[i][k] * a[j][k] for k in range(3)) for j in range(3)] for i in range(3)]
    return [m[0][0], m[0][1], m[0][2], m[1][1], m[1][2], m[2][2]]


def cov_script(r, n):
    ops = []
    for _ in range(n):
        if r.random() < 0.6:
            d = [r.choice([1, 2, 5, 7, 20, 99, 100, 101, 150, 400, 0, 0, 1000]) for _ in range(3)]
            if r.random() < 0.2:
                d = [-x if r.random() < 0.5 else x for x in d]
            if sum(d) == 0 and any(d):
                continue        # rounding decides whether the trace is positive
            if any(100 * x == max(d) for x in d):
                continue        # exactly at the threshold
            ops.append(["inv"] + d + [r.randint(1, 3), r.choice([0, 1, -1])])
        else:
            ops.append(["chain"] + sym(r) + sym(r) + [r.randint(-9, 9), r.randint(-9, 9), r.choice([0, 1, -1]), r.randint(-2, 2)])
    return ops


def word(r, m, alpha="ab,"):
    return "_" + "".join(r.choice(alpha) for _ in range(r.randint(0, m)))


def split_script(r, n):
    ops = []
    for _ in range(n):
        t = word(r, 3)
        s = word(r, 12)
        if r.random() < 0.5:
            s = "_" + t[1:].join(word(r, 2)[1:] for _ in range(r.randint(1, 6)))
        ops.append(["split", s, t])
    return ops


def search_script(r, n):
    ops = []
    for _ in range(n):
        if r.random() < 0.1:
            ops.append(["fit", r.choice([1, 5, 10, 35, 55, 80, 99]), r.choice([1, 5, 10, 20])])
            continue
        quad = r.randint(0, 1)
        c, m, p = r.choice([-1, 1, 1, 2]), r.randint(-4, 4), r.randint(-4, 4)
        ops.append(["search", c, m, p, quad, r.randint(-4, 4), r.randint(-4, 4), r.randint(-4, 4)])
    return ops


def run(ctx):
    b = vf.bg(vf.build, ctx, "planar", ["planar.cpp"])
    words = lambda n: [w for k in range(n + 1) for w in itertools.product((97, 98), repeat=k)]
    r = ctx.rng
    if ctx.prop == "C14":
        dot = mc(ctx, "mc", "pose", ctx.pick([(1, 0, 0, 1), (0, 1, 0, 0)], [(0, 1, 1, 0), (1, 0, 0, 1), (1, 0, -1, 0)]), ctx.pick(2, 1), [], [], "{0}", ["Concat", "AddTo", "SetB", "Rel", "Conv", "Err"])
        rnd = [pose_script(r, 40) for _ in range(ctx.pick(250, 4000))]
    elif ctx.prop == "C15":
        dot = mc(ctx, "mc", "pose", [(0, 1, 0, 0), (1, 0, 0, 1)], 1, [], [], "{0}", ["Concat", "AddTo"])
        # all spectra over a small set of values, every plane
        v = [0, 1, 30, 150]
        grid = [["inv"] + list(d) + [ax, n] for d in itertools.product(v, repeat=3) for ax in (1, 2, 3) for n in (0, 1)]
        rnd = [grid] + [cov_script(r, 40) for _ in range(ctx.pick(150, 3000))]
    elif ctx.prop == "C16":
        dot = mc(ctx, "mc", "split", [], 1, words(ctx.pick(6, 9)), words(3), "{0}", ["SplitIt"])
        rnd = [split_script(r, 40) for _ in range(ctx.pick(100, 2000))]
    else:
        dot = mc(ctx, "mc", "search", [], 1, [], [], ctx.pick("-3 .. 3", "-4 .. 4"), ["Search"], dump=True)
        rnd = [search_script(r, 40) for _ in range(ctx.pick(150, 3000))]
    init, succ = vf.load_graph(dot)
    walks, cov, total = vf.covering_walks(init, succ, r, limit=ctx.pick(9000, 100000), maxlen=150)
    if ctx.prop == "C16":
        text = lambda s: "_" + "".join(map(chr, s))
        walks = [[[o[0], text(o[1]), text(o[2])] for o in w] for w in walks]
    ctx.notes["model_transitions_replayed"] = cov
    ctx.notes["model_transitions"] = total
    s = walks + rnd
    ev = vf.run_harness(ctx, b(), s)
    vf.validate(ctx, *TR, ev, "tr", "planar", s, jobs=7)

    def corrupt(evs):
        for e in evs:
            if e["op"] == "rel" and ctx.prop == "C14":
                e["frames"][0] += 20
                return True
            if e["op"] == "inv" and e["ok"]:
                e["adj"][1][1] += 50
                return True
            if e["op"] == "split" and len(e["parts"]) > 1:
                e["parts"].pop()
                return True
            if e["op"] == "search" and abs(e["trial"]) < 9000:
                e["trial"] += 9
                return True
    vf.binding_selftest(ctx, *TR, ev, corrupt, "self")
