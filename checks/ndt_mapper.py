"""C21: the mapper."""
import vf
from ndt_grid import blob, points, flat

TR = ("TraceNDTMapper", "TraceNDTMapper.cfg")
POSES = {1: [10, -6, 0, 1], 2: [-22, 14, 1, 0], 3: [4, 34, 0, 0]}


def plan(walk, r):
    """scripts for the harness; keeps track of the headings of the frames, so that scans differ from them by quarter turns"""
    ops, head, listed = [], {}, []
    for i in (1, 2, 3, 4):
        head[i] = r.choice([0, 0, 1, -1])
        ops.append(["new", i, 2 * r.randint(-9, 9), 2 * r.randint(-9, 9), head[i], r.randint(0, 3), 0])
    for op in walk:
        i = op[1]
        if op[0] == "scan":
            pts = points(r, r.randint(1, 3)) if r.random() < 0.5 else \
                flat(blob(r.randint(-3, 3), r.randint(-3, 3)) + blob(r.randint(-3, 3), r.randint(-3, 3), 7))
            ops.append(["scan", i, r.randint(0, 1), 1, 2 * r.randint(-20, 20), 2 * r.randint(-20, 20), head[i], r.randint(0, 3)] + pts)
        elif op[0] == "update":
            p = POSES[op[2]] if op[2] in POSES else op[2:]
            ops.append(["update", i] + p)
            if i in listed:
                head[i] = p[2]
        elif op[0] == "add":
            ops.append(op[:3] + [r.randint(0, 1)])
            listed.append(i)
        elif op[0] == "combine":
            ops.append(op)
            if i in listed and op[2] in listed:
                listed.remove(op[2])
        elif op[0] == "remove":
            ops.append(op)
            if i in listed:
                listed.remove(i)
        else:
            ops.append(op)
    return ops


def script(r, n):
    listed, t, ops, time = [], 0, [], {}
    for i in (1, 2, 3):
        ops.append(["scan", i])
    while len(ops) < n:
        k, i = r.random(), r.randint(1, 4)
        if k < 0.25:
            ops.append(["scan", i])
        elif k < 0.5:
            if i not in listed:
                t = r.choice([x for x in range(1, 60) if x not in [time[j] for j in listed]])
                time[i] = t
                listed.append(i)
                ops.append(["add", i, t])
        elif k < 0.6:
            ops.append(["remove", i])
            if i in listed:
                listed.remove(i)
        elif k < 0.78:
            ops.append(["update", i, r.choice([1, 2, 3])])
        elif k < 0.86:
            j = r.randint(1, 4)
            if j != i:
                ops.append(["combine", i, j])
                if i in listed and j in listed:
                    time[i] = time[j]
                    listed.remove(j)
        else:
            ops.append(["recalc", r.randint(1, 99)])
    return ops


def run(ctx):
    r = ctx.rng
    b = vf.bg(vf.build, ctx, "ndt_mapper", ["ndt_mapper.cpp"], ["src/ndt/ndt_cell.cpp"], shims=True)
    def mc(tag, nf, times, scans, drawn, dump):
        c = {"NF": nf, "Times": times, "MaxScans": scans, "MaxDrawn": drawn, "Poses": "{1}"}
        return vf.model_check(ctx, "MCNDTMapper", {
            "text": "SPECIFICATION Spec\nINVARIANTS Once Times1 Kept Fresh\nCHECK_DEADLOCK FALSE\n", "consts": c}, tag,
            must_take=["Add", "Scan", "Remove", "Update", "Combine", "Recalc"], dump=dump, workers=4, timeout=850)
    big = vf.bg(mc, "big", "3", ctx.pick("{5, 3}", "{5, 3, 9}"), "2", ctx.pick("2", "3"), False)
    dot = mc("mc", "2", "{5, 3}", "2", "2", True)
    init, succ = vf.load_graph(dot)
    walks, cov, total = vf.covering_walks(init, succ, r, limit=ctx.pick(3500, 40000), maxlen=40)
    ctx.notes.update({"model_transitions": total, "model_transitions_replayed": cov})
    s = [plan(w, r) for w in walks] + [plan(script(r, 30), r) for _ in range(ctx.pick(80, 1200))]
    ev = vf.run_harness(ctx, b(), s)
    vf.validate(ctx, *TR, ev, "tr", "mapper", s, jobs=7, timeout=800)

    big()

    def corrupt(evs):
        for e in evs:
            if e["op"] in ("add", "recalc") and e["msg"] and 99 in e["msg"][0]["data"]:
                e["msg"][0]["data"][e["msg"][0]["data"].index(99)] = 0
                return True
    vf.binding_selftest(ctx, *TR, ev, corrupt, "self")
