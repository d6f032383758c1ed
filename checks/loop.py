"""C17: the search for loop closures."""
import vf

TR = ("TraceLoop", "TraceLoop.cfg")


def dress(ops, r):
    """model operations -> harness operations: shape, heading and weight of the edges are free"""
    out = []
    for op in ops:
        if op[0] == "edge":
            out.append(op + [r.randint(0, 5), r.randint(-3200000, 3200000), r.randint(0, 3)])
        elif op[0] == "close":
            out.append(op[:2] + list(op[2]))
        else:
            out.append(op)
    return out


def edge(r, f, t, lens):
    return ["edge", f, t, r.choice(lens), r.randint(0, 5), r.randint(-3200000, 3200000), r.randint(0, 3)]


def graph(r):
    """a random small graph, mostly a chain with shortcuts and branches"""
    n = r.randint(2, 8)
    ops = []
    lens = r.choice([[5, 10, 3], [5, 15], [1, 2, 20], [0, 5, 10]])
    span = r.choice([6, 12, 25])
    ops.append(["limits", r.choice([1, 9, 11, 21, 29, 41]), r.choice([1, 9, 15, 25, 31])]) if r.random() < 0.8 else None
    k, pairs = 0, set()

    def close():
        ids = list(range(k))
        ops.append(["close", r.choice(ids)] + [i for i in ids if r.random() < 0.6])
        if r.random() < 0.5:
            ops.append(["attach"])
            if r.random() < 0.5:
                ops.append(["detach"])
    while k < n:
        ops.append(["node", r.randint(-span, span), r.randint(-span, span), r.randint(-7000000, 7000000)])
        k += 1
        new = []
        if k > 1 and r.random() < 0.9:
            new.append((k - 2, k - 1))
        if k > 2 and r.random() < 0.4:
            new.append((r.randint(0, k - 2), k - 1))
        if k > 2 and r.random() < 0.25:
            new.append((k - 1, r.randint(0, k - 2)))
        for f, t in new:
            if (f, t) not in pairs:
                pairs.add((f, t))
                ops.append(edge(r, f, t, lens))
        if r.random() < 0.3:
            close()
        if r.random() < 0.1:
            ops.append(["limits", r.choice([1, 9, 11, 21, 29, 41]), r.choice([1, 9, 15, 25, 31])])
    close()
    close()
    return ops


def chain(r):
    """a long way, past the same place often: more candidates than matches allowed"""
    n, ops = r.randint(45, 70), []
    turn = r.randint(3, 9)
    for k in range(n):
        ops.append(["node", 4 * (k % turn), r.randint(0, 3), r.randint(-3000000, 3000000)])
        if k:
            ops.append(edge(r, k - 1, k, [5]))
    ops.append(["limits", r.choice([9, 31]), r.choice([61, 25])])
    for _ in range(3):
        ops.append(["close", r.randint(n // 2, n - 1)] + [i for i in range(n) if r.random() < 0.5])
    ops.append(["attach"])
    ops.append(["close", n - 1] + list(range(n)))
    return ops


def run(ctx):
    r = ctx.rng
    b = vf.bg(vf.build, ctx, "loop", ["loop.cpp"], [], shims=True)

    def search(tag, pairs, lens):
        return vf.model_check(ctx, "MCLoopSearch", {
            "text": "SPECIFICATION Spec\nINVARIANTS Guarantee Never\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n",
            "consts": {"Nodes": "<< <<0, 0, 0>>, <<9, 0, 0>>, <<1, 0, 0>>, <<0, 2, 0>> >>", "Pairs": pairs, "Lens": lens,
                       "MinD": "11", "MaxD": "9", "Limit": "2"}}, tag,
            must_take=["AddEdge", "Begin", "Pop", "Stop"], workers=4, timeout=850)
    s1 = vf.bg(search, "search", ctx.pick("{<<0, 1>>, <<1, 2>>, <<0, 2>>, <<2, 3>>, <<1, 3>>, <<3, 0>>}",
                                         "{<<0, 1>>, <<1, 2>>, <<0, 2>>, <<2, 3>>, <<1, 3>>, <<3, 0>>, <<0, 3>>, <<2, 1>>}"), "{3, 8}")
    dot = vf.model_check(ctx, "MCLoop", {
        "text": "SPECIFICATION Spec\nINVARIANT Small\nCHECK_DEADLOCK FALSE\n",
        "consts": {"Poses": "{<<0, 0, 300000>>, <<9, 0, -2900000>>}", "Lens": "{5, 25}", "MaxEdges": "2", "MaxNodes": "3",
                   "Oks": "{<<0, 1, 2>>, <<1>>}"}}, "mc",
        must_take=["AddNode", "AddEdge", "Close", "Attach", "Detach"], dump=True, workers=4, timeout=850)
    init, succ = vf.load_graph(dot)
    walks, cov, total = vf.covering_walks(init, succ, r, limit=ctx.pick(14000, 100000), maxlen=60)
    ctx.notes.update({"model_transitions": total, "model_transitions_replayed": cov})
    s = [dress(w, r) for w in walks] + [graph(r) for _ in range(ctx.pick(500, 8000))] + [chain(r) for _ in range(ctx.pick(6, 60))]
    ev = vf.run_harness(ctx, b(), s)
    vf.validate(ctx, *TR, ev, "tr", "loop detector", s, jobs=7, timeout=800)
    s1()

    def corrupt(evs):
        for e in evs:
            if e["op"] == "close" and e["found"]:
                e["found"].pop()
                return True
    vf.binding_selftest(ctx, *TR, ev, corrupt, "self")
