"""C19 C20 C26: NDT grids."""
import vf

TR = ("TraceNDTGrid", "TraceNDTGrid.cfg")
# prefabricated scans: odd ticks, 6 or 7 points to a cell
CLUSTER = [(-3, -1), (-1, 3), (1, 1), (3, -3), (5, 1), (-5, 3), (1, -5)]


def blob(cx, cy, n=6):
    return [(16 * cx + CLUSTER[i][0], 16 * cy + CLUSTER[i][1]) for i in range(n)]


SCANS = [blob(1, 0), blob(3, 0) + blob(0, 1, 5), blob(2, 1, 7) + blob(-1, -1)]


def tla(scans):
    return "<<" + ",".join("<<" + ",".join("<<%d,%d>>" % p for p in s) + ">>" for s in scans) + ">>"


def flat(ps):
    return [x for p in ps for x in p]


def mc(ctx, tag, scans, poses, origins, moves, turns, maxpts, maxext, steps, take, dump, timeout=800):
    t = lambda l: "{" + ",".join("<<" + ",".join(map(str, x)) + ">>" for x in l) + "}"
    c = {"Scans": tla(scans), "Poses": t(poses), "Origins": t(origins), "Moves": t(moves), "Turns": t(turns),
         "MaxPts": str(maxpts), "MaxExt": str(maxext), "MaxSteps": str(steps)}
    return vf.model_check(ctx, "MCNDTGrid", {
        "text": "CONSTANTS T = 16 MinPoints = 6 One = 1000000 Hit = 405465 Miss = 200000\nSPECIFICATION Spec\n"
                "INVARIANTS WellPlaced InExtent Bounded\nPROPERTIES StepsOK\nCHECK_DEADLOCK FALSE\n", "consts": c},
        tag, must_take=take, dump=dump, workers=6, timeout=timeout, cover=False)


def concrete(walk):
    res = []
    for op in walk:
        if op[0] == "scan":
            res.append(["scan"] + op[1:8] + flat(SCANS[op[8] - 1]))
        elif op[0] == "merge":
            res.append(op)
        elif op[0] == "move":
            res.append(op + [0, 0])
        else:
            res.append(op)
    return res


def points(r, n):
    """some clusters, some strays, some points without a value"""
    ps = []
    for _ in range(n):
        c = (r.randint(-5, 5), r.randint(-5, 5))
        k = r.choice([1, 5, 6, 6, 7, 9, 14])
        for _ in range(k):
            ps.append((16 * c[0] + r.choice([-7, -5, -3, -1, 1, 3, 5, 7]), 16 * c[1] + r.choice([-7, -5, -3, -1, 1, 3, 5, 7])))
    r.shuffle(ps)
    ps = [x for p in ps for x in p]
    if r.random() < 0.15:
        at = 2 * r.randint(0, len(ps) // 2)
        ps[at:at] = ["nan", r.choice("xyz")]
    return ps


def script(r, n, prop):
    ops = []
    head = [0, 0, 0, 0]          # 3-4-5 turns of the grids
    moved = [0, 0, 0]
    turned = [False] * 3

    def even(m):
        return 2 * r.randint(-m, m)

    def new(i, aligned=False):
        head[i] = 0 if aligned or r.random() < 0.6 else r.choice([1, -1])
        k = 0 if aligned or r.random() < 0.5 else r.randint(-2, 2)
        moved[i] = 0
        turned[i] = head[i] != 0 or k % 4 != 0
        ops.append(["new", i + 1, even(12), even(12), head[i], k, r.randint(0, 9)])
    for i in range(3):
        if r.random() < 0.7:
            new(i, prop == "C20" and i < 2)
    for _ in range(r.randint(1, 2)):
        i = r.randint(0, 2)
        ops.append(["init", i + 1, r.randint(0, 1)] + points(r, r.randint(1, 5)))
    while len(ops) < n:
        i, k = r.randint(0, 2), r.random()
        i1 = i + 1
        if k < 0.28:
            # quarter turns only, so that points stay away from the borders of cells
            ops.append(["scan", i1, r.randint(0, 1), int(r.random() < 0.7), even(40), even(40), head[i], r.randint(-1, 2)] + points(r, r.randint(1, 5)))
        elif k < 0.45:
            j = r.randint(0, 2)
            if j != i or r.random() < 0.1:
                ops.append(["merge", i1, j + 1, r.randint(0, 1), int(r.random() < 0.8), int(r.random() < 0.7)])
        elif k < (0.8 if prop == "C20" else 0.52):
            q = r.random()
            if q < 0.7:
                if moved[i] < 8:
                    t = [r.randint(-40, 40), r.randint(-40, 40)] if r.random() < 0.7 else [r.choice([-16, 16, 15, -15, 17, 32, 0]), r.choice([-16, 16, 0, 31])]
                    ops.append(["move", i1] + t + [r.choice([0, 0, 0, 1]), r.choice([0, 0, 1])])
                    moved[i] += 1
            elif q < 0.85:
                tn = r.choice([0, 0, 1, -1])
                ops.append(["transform", i1] + ([0, 0] if turned[i] else [even(20), even(20)]) + [tn, r.randint(0, 3)])
            elif q < 0.95:
                ops.append(["enlarge", i1, -r.randint(0, 80), -r.randint(0, 80), r.randint(0, 80), r.randint(0, 80)])
            else:
                head[i] = r.choice([0, 0, 1])
                kk = r.choice([0, 0, 1])
                turned[i] = bool(head[i] or kk)
                moved[i] = 0
                ops.append(["setorigin", i1, even(12), even(12), head[i], kk])
        elif k < (0.83 if prop != "C26" else 0.54):
            ops.append(["clear", i1])
        elif k < (0.87 if prop != "C26" else 0.57):
            j = r.randint(0, 2)
            ops.append(["copy", i1, j + 1])
            head[i], moved[i], turned[i] = head[j], moved[j], turned[j]
        elif k < (0.9 if prop != "C26" else 0.6):
            ops.append(["init", i1, r.randint(0, 1)] + points(r, r.randint(1, 5)))
        else:
            pt = [2 * r.randint(-50, 50) + 1, 2 * r.randint(-50, 50) + 1]
            ops += [[["neigh", i1] + pt + [r.choice([0, -1, 5, 11, 16, 20, 33, 50])]],
                    [["knn", i1] + pt + [r.randint(1, 5)]], [["occ", i1]], [["ser", i1]], [["means", i1]],
                    [["coarse", i1, r.choice([2, 3, 4])]]][r.randint(0, 5)]
    return ops


def aimed(scripts, events, r):
    """queries just around the distributions the grids hold in the end"""
    out, pos = [], 0
    for sc in scripts:
        g = {}
        for e in events[pos:pos + len(sc) + 1]:
            for c in e.get("chg", ()):
                g[c["i"]] = [x for x in c["g"]["cells"] if x[2] == 1]
        pos += len(sc) + 1
        q = []
        for i, cells in g.items():
            for c in (r.sample(cells, min(3, len(cells)))):
                m = [c[4] / 1000.0, c[5] / 1000.0]
                p = [2 * round(v / 2 + r.uniform(-24, 24) * r.choice([1, 0.3, 0])) + 1 for v in m]
                d = ((p[0] - m[0]) ** 2 + (p[1] - m[1]) ** 2) ** 0.5
                q.append(["neigh", i] + p + [int(d) + 1])
                q.append(["neigh", i] + p + [max(0, int(d) - 1)])
                q.append(["knn", i] + p + [r.randint(1, 3)])
            q += [["means", i], ["occ", i], ["ser", i], ["coarse", i, 2]]
        r.shuffle(q)
        out.append(sc + q[:20])
    return out


def run(ctx):
    r = ctx.rng
    b = vf.bg(vf.build, ctx, "ndt_grid", ["ndt_grid.cpp"], ["src/ndt/ndt_cell.cpp"], shims=True)
    move = ctx.prop == "C20"
    dot = mc(ctx, "mc", ctx.pick(SCANS[:2], SCANS), [(0, 0, 0), (2, 18, 1)], ctx.pick([(0, 6, 0, 1) if move else (4, 2, 0, 0)], [(4, 2, 0, 0), (0, 6, 0, 1)]),
             [(17, -33), (-15, 20)], [(0, 1), (1, 0)], 14, 8, ctx.pick(3, 3),
             ["Scan", "Join", "Move", "Rotate", "Put"], True)
    init, succ = vf.load_graph(dot)
    walks, cov, total = vf.covering_walks(init, succ, r, limit=ctx.pick(9000, 80000), maxlen=60)
    ctx.notes.update({"model_transitions": total, "model_transitions_replayed": cov})
    s = [concrete(w) for w in walks] + [script(r, 30, ctx.prop) for _ in range(ctx.pick(150, 2500))]
    b = b()
    ev = vf.run_harness(ctx, b, s)
    if ctx.prop == "C26":
        s = s[::ctx.pick(6, 2)] + s[-ctx.pick(150, 2500):]
        s = aimed(s, vf.run_harness(ctx, b, s), r)
        ev = vf.run_harness(ctx, b, s)
    vf.validate(ctx, *TR, ev, "tr", "NDT grid", s, jobs=7, timeout=800)

    def corrupt(evs):
        for e in evs:
            if e["op"] == "scan" and e["chg"]:
                for c in e["chg"][0]["g"]["cells"]:
                    if c[2] == 1 and e["inc"]:
                        c[5] += 300
                        return True
    vf.binding_selftest(ctx, *TR, ev, corrupt, "self")
