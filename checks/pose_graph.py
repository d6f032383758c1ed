"""C01 C02 C03: pose graph."""
import vf

ASPECT = {"C01": "ids", "C02": "adj", "C03": "iter"}


def random_script(rng, n, aspect):
    ops, nodes, live, mid, dead = [], 0, [], 0, []
    attr = aspect == "ids"
    style = rng.random()
    while len(ops) < n:
        r = rng.random()
        if nodes == 0 or (r < 0.12 and nodes < 12):
            ops.append(["addNode", rng.randint(-9, 9), rng.randint(-9, 9), rng.randint(-3, 4), rng.randint(0, 99)])
            nodes += 1
        elif r < 0.45 and len(live) < 14:
            ops.append(["addEdge", rng.randrange(nodes), rng.randrange(nodes), rng.randint(-9, 9),
                        rng.randint(-9, 9), rng.randint(-1, 1), rng.randint(1, 50), mid])
            live.append(mid)
            mid += 1
        elif r < 0.45 + 0.35 * style and live:
            k = rng.choice([0, -1, rng.randrange(len(live))])
            dead.append(live.pop(k))
            ops.append(["removeEdge", dead[-1]])
            if rng.random() < 0.3:
                ops.append([rng.choice(["removeEdge", "getEdge"]), dead[-1]])
        elif r < 0.85 and attr:
            k = rng.randrange(8)
            x = rng.randrange(nodes)
            if k == 0:
                ops.append(["setPose", x, rng.randint(-9, 9), rng.randint(-9, 9), rng.randint(-1, 2)])
            elif k == 1:
                ops.append(["addToPose", x, rng.randint(-3, 3), rng.randint(-3, 3), rng.randint(-3, 3), rng.randint(0, 1)])
            elif k == 2:
                ops.append(["setData", x, rng.randint(0, 999)])
            elif k == 3:
                ops.append(["setVisited", x, rng.randint(0, 1)])
            elif live:
                e = rng.choice(live)
                ops.append([["setState", e, rng.randint(0, 3)], ["setType", e, rng.randint(0, 1)],
                            ["setUsed", e, rng.randint(0, 1)], ["setUsed", e, 1]][k - 4])
        elif r < 0.92:
            if dead and rng.random() < 0.4:
                d = rng.choice(dead)
                # an id that may have been reused since
                ops.append(["getEdge", d])
            else:
                ops.append([rng.choice(["getEdge", "removeEdge", "getNode"]), 900 + rng.randint(0, 5)])
        else:
            ops.append(["getNode", rng.randint(0, nodes + 1)])
    return ops


def run(ctx):
    aspect = ASPECT[ctx.prop]
    quick = ctx.quick
    cfg = "MCPoseGraph.cfg"
    dot = vf.model_check(ctx, "MCPoseGraph", cfg, "mc", must_take=["DoAddNode", "DoAddEdge", "DoRemove"], dump=True)
    if not quick:
        vf.model_check(ctx, "MCPoseGraph", {"text": open(vf.SPEC + "/MCPoseGraph.cfg").read()
                       .replace("MaxNodes = 2  MaxSlots = 3  Attrs = FALSE", "MaxNodes = 2  MaxSlots = 4  Attrs = FALSE")}, "mcbig",
                       must_take=["DoRemove"], workers=6)
    init, succ = vf.load_graph(dot)
    walks, cov, total = vf.covering_walks(init, succ, ctx.rng)
    ctx.notes["model_transitions_replayed"] = cov
    ctx.notes["model_transitions"] = total
    rand = [random_script(ctx.rng, 120, aspect) for _ in range(ctx.pick(60, 600))]
    scripts = walks + rand
    b = vf.build(ctx, "pose_graph", ["pose_graph.cpp"])
    ev = vf.run_harness(ctx, b, scripts, args=[aspect])
    vf.validate(ctx, "TracePoseGraph", "TracePoseGraph.cfg", ev, "tr", "pose graph", scripts, env={"ASPECT": aspect},
                jobs=6)

    def corrupt(evs):
        for e in evs:
            if e["op"] == "addEdge":
                if aspect == "ids":
                    e["edges"][0]["from"] = 77
                elif aspect == "adj":
                    e["adj"][0]["out"] = [55]
                else:
                    e["eit"][2] = []
                return True
    vf.binding_selftest(ctx, "TracePoseGraph", "TracePoseGraph.cfg", ev, corrupt, "self", env={"ASPECT": aspect})
