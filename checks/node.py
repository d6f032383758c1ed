"""C23: the ROS node."""
import os
import vf

TR = ("TraceNode", "TraceNode.cfg")


def start(r, mode=None):
    ns = r.choice(["-", "-", "slam", "robot"])
    a, prefix = [], None
    base, odom = "base_link", "odom"
    if mode or r.random() < 0.85:
        a += ["s", "~subscribe_mode", mode or r.choice(["ODOM", "POSE", "NON", "ODOM", "POSE"])]
    if r.random() < 0.5:
        base = r.choice(["base_footprint", "robot"])
        a += ["s", "~robot_base_frame_id", base]
    if r.random() < 0.5:
        odom = r.choice(["odom_combined", "wheels"])
        a += ["s", "~odom_farme_id", odom]
    if r.random() < 0.5:
        a += ["s", "~map_farme_id", r.choice(["world", "earth"])]
    if r.random() < 0.3:
        a += ["b", "~serialize_graph", r.choice([0, 0, 1])]
    for n in ["scanmatch_window_radius", "node_gen_distance", "loop_max_distance", "loop_min_distance", "loop_score_threshold"]:
        if r.random() < 0.5:
            a += ["d", "~" + n, r.randint(1, 999)]
    at = ["~tf_prefix"] + ["/" + ns + "/tf_prefix"] * (ns != "-") + ["/tf_prefix"]
    if r.random() < 0.4:
        for i, n in enumerate(at):
            if r.random() < 0.5:
                v = "p3dx_%d" % i
                prefix = prefix or v
                a += ["s", n, v]
    if prefix:
        base, odom = prefix + "/" + base, prefix + "/" + odom
    if r.random() < 0.06:
        base, odom = r.choice([("nobase", odom), (base, "noodom")])
    return ["start", ns] + a + ["frames", base, odom]


def rays(r, total, more=False):
    """`total` points seen"""
    n = r.randint(1, 5)
    cut = sorted(r.randint(0, total) for _ in range(n - 1))
    parts = [b - a for a, b in zip([0] + cut, cut + [total])]
    out = []
    for p in parts:
        out += [r.randint(0, 3), r.choice([1, 100, r.randint(2, 99), r.randint(2, 99)]), p] if p else []
        if r.random() < 0.4:
            out += [r.randint(0, 3), r.choice([0, 101, 150]), r.randint(1, 30)]
    return out


def pose(r, a=200):
    return [r.randint(-a, a), r.randint(-a, a), r.choice([0, 0, -1, 1]), r.randint(0, 3)]


def drive(r):
    mode = r.choice(["ODOM", "POSE", "NON", None])
    ops = [start(r, mode)]
    ops.append(["mount", r.randint(-9, 9), r.randint(-9, 9), r.randint(0, 3), r.choice([0, 0, 0, 1])])
    if r.random() < 0.05:
        ops.pop()
    t, last = 10, pose(r)
    for i in range(r.randint(1, 8)):
        stamps = [t + x for x in r.choice([(0, 1, 2), (2, 0, 1), (1, 2, 0), (0, 0, 1), (1, 0, 0), (0, 0, 0)])]
        t += r.randint(3, 5)
        for q in set(stamps):
            if r.random() < 0.85:
                ops.append(["odom", q] + (last if r.random() < 0.1 else pose(r)) + [int(r.random() < 0.2)])
                last = ops[-1][2:6]
        seen = r.choice([400, 400, 401, 480, 399, 0, 17]) if r.random() < 0.5 else 400
        ops.append(["msg"] + stamps + [r.randint(1, 9999)] + pose(r) + [int(r.random() < 0.93), r.randint(0, 1)] + rays(r, seen))
    return ops


def dress(walk, r):
    """messages of the model"""
    mode = r.choice(["ODOM", "POSE", "NON"])
    base, odom = "base_link", "odom"
    ops = [["start", "-", "s", "~subscribe_mode", mode, "frames", base, odom], ["mount", 3, -1, r.randint(0, 3), 0]]
    t = 0
    for op in walk:
        if op[0] != "msg":
            continue
        t += 5
        stamps = [t + 1, t + 1, t + 1]
        stamps[["ODOM", "POSE", "NON"].index(mode)] = t
        if op[2]:
            ops.append(["odom", t] + list(op[1]) + [0])
        ops.append(["odom", t + 1, 50, 60, 0, 3, 0])
        ops.append(["msg"] + stamps + [r.randint(1, 99)] + list(op[4]) + [1, t % 2] + rays(r, op[3]))
    return ops


def run(ctx):
    r = ctx.rng
    b = vf.bg(vf.build, ctx, "node", ["node.cpp"], [], shims=True, libs=["-lpthread"],
              flags=["-I", os.path.join(vf.VERIF, "harness", "node")])

    def mc(tag, depth, dump):
        return vf.model_check(ctx, "MCNode", {
            "text": "SPECIFICATION Spec\nINVARIANTS Agree Conserved Early\nCHECK_DEADLOCK FALSE\n",
            "consts": {"Starts": "{Id, Pose(5, -7, 0, 1)}", "Motions": "{Id, Pose(2, 0, 0, 1), Pose(3, 1, 1, 0)}" if not dump else "{Pose(2, 0, 0, 1), Pose(3, 1, 0, 0)}",
                       "Errors": "{Id, Pose(1, 2, 0, 3)}", "Depth": str(depth)}}, tag,
            must_take=["Go"], dump=dump, workers=4, timeout=850, cover=not dump)
    big = vf.bg(mc, "big", ctx.pick(4, 5), False)
    dot = mc("mc", 4, True)
    init, succ = vf.load_graph(dot)
    walks, cov, total = vf.covering_walks(init, succ, r, limit=ctx.pick(1500, 60000), maxlen=20)
    ctx.notes.update({"model_transitions": total, "model_transitions_replayed": cov})
    s = [dress(w, r) for w in walks] + [drive(r) for _ in range(ctx.pick(600, 8000))]
    ev = vf.run_harness(ctx, b(), s)
    vf.validate(ctx, *TR, ev, "tr", "node", s, jobs=7, timeout=800)
    big()

    def corrupt(evs):
        for e in evs:
            if e["op"] == "msg" and e["updates"] and e["tfs"]:
                e["tfs"][0]["v"][0] += 3000
                return True
    vf.binding_selftest(ctx, *TR, ev, corrupt, "self")
