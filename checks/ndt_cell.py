"""C09 C10: NDT cell."""
import vf

ASPECT = {"C09": "fuse", "C10": "occ"}
# proper rotations of the axes
ROTS = []
for ax in ([1, 2, 3], [2, 1, 3], [1, 3, 2], [3, 2, 1], [2, 3, 1], [3, 1, 2]):
    for sg in [(a, b, c) for a in (1, -1) for b in (1, -1) for c in (1, -1)]:
        par = 1 if ax in ([1, 2, 3], [2, 3, 1], [3, 1, 2]) else -1
        if par * sg[0] * sg[1] * sg[2] == 1:
            ROTS.append(ax + list(sg))


def batch(rng, n):
    """points of one of several shapes"""
    k = rng.random()
    o = [rng.randint(-4, 4) for _ in range(3)]
    if k < 0.3:
        f = lambda: [rng.randint(-8, 8), rng.randint(-8, 8), 0]           # flat, like laser scans
    elif k < 0.6:
        f = lambda: [o[i] + rng.randint(-3, 3) for i in range(3)]
    elif k < 0.7:
        d = [rng.randint(-2, 2) for _ in range(3)]

        def f():
            t = rng.randint(-2, 2)
            return [o[i] + t * d[i] for i in range(3)]                     # a line
    elif k < 0.8:
        f = lambda: list(o)                                                # one place
    else:
        f = lambda: [rng.randint(-8, 8) for _ in range(3)]
    return sum((f() for _ in range(n)), [])


def ray(rng, c, sums, w):
    """ray ops; some aim through the mean"""
    k = rng.random()
    a = [rng.randint(-12, 12) for _ in range(3)]
    e = [rng.randint(-12, 12) for _ in range(3)]
    if k < 0.4:
        a[2] = e[2] = 0
    m = sums.get(c)
    if m and k > 0.5:
        n, s = m
        mean = [round(x / n) for x in s]
        d = [rng.randint(-3, 3) for _ in range(3)]
        if k < 0.75:
            a = [mean[i] - d[i] for i in range(3)]
            e = [mean[i] + rng.choice([1, 1, 2]) * d[i] for i in range(3)]
        elif k < 0.9:
            e = mean
    if rng.random() < 0.05:
        e = list(a)
    return ["ray", c] + a + e + [w]


def concrete(walk, rng):
    """Model transitions with points and rays made concrete. Batches are symmetric about an integer point so that rays
    can hit the mean. The real rays remove more or less evidence than the model's, so counts can outgrow the model's
    bound: the script starts anew (reset) before the arithmetic of the specification would overflow."""
    out, res, sums = [], [], {}
    cnt, pend = {1: 0, 2: 0, 3: 0}, {1: 0, 2: 0, 3: 0}
    for op in walk:
        c = op[1]
        if (op[0] == "merge" and cnt[c] + cnt[op[2]] > 90) or (op[0] == "compute" and cnt[c] + pend[c] > 90) or \
                (op[0] == "pts" and pend[c] + op[2] > 25):
            res.append(out)
            out, sums = [], {}
            cnt, pend = {1: 0, 2: 0, 3: 0}, {1: 0, 2: 0, 3: 0}
        if op[0] == "pts":
            b = []
            o = [rng.randint(-3, 3) for _ in range(3)]
            for _ in range(op[2] // 2):
                d = [rng.randint(-4, 4) for _ in range(3)]
                b += [o[i] + d[i] for i in range(3)] + [o[i] - d[i] for i in range(3)]
            if op[2] % 2:
                b += o
            out.append(["pts", c] + b)
            sums[c] = (1, o)
            pend[c] += op[2]
        elif op[0] == "ray":
            if op[3]:
                out.append(ray(rng, c, sums, op[2]))
            else:
                out.append(["ray", c, 11, 12, 0, 12, rng.randint(10, 12), 0, op[2]])
        else:
            if op[0] == "compute":
                cnt[c] += pend[c]
                if pend[c] >= 6:
                    pend[c] = 0
            else:
                cnt[c] += cnt[op[2]]
                pend[c] = max(pend[c], pend[op[2]])
            out.append(list(op))
    res.append(out)
    return [x for x in res if x]


def random_script(rng, n, prop):
    ops, cnt = [], {1: 0, 2: 0, 3: 0}
    pend = {1: 0, 2: 0, 3: 0}
    sums = {}
    while len(ops) < n:
        c = rng.randint(1, 3)
        k = rng.random()
        if k < 0.3:
            m = rng.choice([1, 2, 3, 5, 6, 7, 10, 20])
            if pend[c] + m > 25:
                continue
            b = batch(rng, m)
            ops.append(["pts", c] + b)
            pend[c] += m
            if m >= 6:
                sums[c] = (m, [sum(b[i::3]) for i in range(3)])
            if rng.random() < 0.7:
                ops.append(["compute", c])
                cnt[c] = min(cnt[c] + pend[c], 10**9)
                if pend[c] >= 6:
                    pend[c] = 0
        elif k < 0.4:
            ops.append(["compute", c])
            cnt[c] += pend[c]
            if pend[c] >= 6:
                pend[c] = 0
        elif k < 0.6:
            d = rng.randint(1, 3)
            if cnt[c] + cnt[d] > 95:
                break
            ops.append(["merge", c, d])
            cnt[c] += cnt[d]
            pend[c] = max(pend[c], pend[d])
        elif k < (0.72 if prop == "C09" else 0.88):
            ops.append(ray(rng, c, sums, rng.choice([1, 1, 2, 3, 6, 20])))
        elif k < 0.9:
            ops.append(["rot", c] + rng.choice(ROTS) + [rng.randint(-1, 1) for _ in range(3)])
            r = ops[-1][2:]
            if c in sums:
                nn, s = sums[c]
                sums[c] = (nn, [r[3 + i] * s[r[i] - 1] + nn * r[6 + i] for i in range(3)])
        elif k < 0.94:
            ops.append(["copy", c, rng.randint(1, 3)])
            cnt[c], pend[c] = cnt[ops[-1][2]], pend[ops[-1][2]]
        elif k < 0.97:
            ops.append(["ser", c])
        elif prop == "C10":
            ops.append(["setocc", c, rng.choice([-1, -1, 0, 1, 29, 50, 57, 99, 100])])
    return ops


def run(ctx):
    aspect = ASPECT[ctx.prop]
    dot = vf.model_check(ctx, "MCNDTCell", "MCNDTCell.cfg", "mc", must_take=["DoPts", "DoCompute", "DoMerge", "DoRay"],
                         dump=True, workers=4)
    init, succ = vf.load_graph(dot)
    walks, cov, total = vf.covering_walks(init, succ, ctx.rng, limit=ctx.pick(9000, 150000), maxlen=120)
    ctx.notes["model_transitions_replayed"] = cov
    ctx.notes["model_transitions"] = total
    walks = [x for w in walks for x in concrete(w, ctx.rng)]
    if not ctx.quick:
        vf.model_check(ctx, "MCNDTCell", {"text": open(vf.SPEC + "/MCNDTCell.cfg").read().replace(
            "MaxN = 8", "MaxN = 18")}, "mcbig", workers=6, timeout=800)
    b = vf.build(ctx, "ndt_cell", ["ndt_cell.cpp"], ["src/ndt/ndt_cell.cpp"])
    allev, alls = [], []
    for q in ("1", "4"):
        s = [random_script(ctx.rng, 40, ctx.prop) for _ in range(ctx.pick(120, 1500))]
        if q == "1":
            s = walks + s
        allev += vf.run_harness(ctx, b, s, args=[q], tag="h" + q)
        alls += s
    vf.validate(ctx, "TraceNDTCell", "TraceNDTCell.cfg", allev, "tr", "NDT cell", alls, env={"ASPECT": aspect}, jobs=7)

    def corrupt(evs):
        for e in evs:
            if e["op"] == "compute" and e["cells"][e["c"] - 1]["g"]:
                if aspect == "fuse":
                    e["cells"][e["c"] - 1]["S"][3] *= 2
                else:
                    e["cells"][e["c"] - 1]["occ"] -= 100
                return True
    vf.binding_selftest(ctx, "TraceNDTCell", "TraceNDTCell.cfg", allev, corrupt, "self", env={"ASPECT": aspect})
