"""C27: verdict of robust matching."""
import vf

TR = ("TraceRobustMatch", "TraceRobustMatch.cfg")


def turn(k, p):
    x, y = p
    for _ in range(k % 4):
        x, y = -y, x
    return x, y


def by(g, p):
    v = turn(g[2], p)
    return v[0] + g[0], v[1] + g[1]


def back(g, p):
    return turn(-g[2], (p[0] - g[0], p[1] - g[1]))


def far(p, qs, d):
    return all(max(abs(p[0] - q[0]), abs(p[1] - q[1])) > d for q in qs)


def place(r, m=30):
    return (r.randint(-m, m), r.randint(-m, m), r.randint(0, 3))


def scene(r, n, k1, k2, same=False):
    """n points of the target; motions a and b put k1 and k2 of the source on it, and every other point far from it"""
    while True:
        t = []
        while len(t) < n:
            p = (r.randint(-25, 25), r.randint(-25, 25))
            if far(p, t, 2):
                t.append(p)
        if not any(x < 0 for x, _ in t) or not any(y > 0 for _, y in t):
            continue
        for _ in range(300):
            a, b = place(r, 40), place(r, 40)
            if same:
                b, k2 = a, 0
            src = [back(a, p) for p in r.sample(t, k1)] + [back(b, p) for p in r.sample(t, k2)]
            if not src:
                src = [(r.randint(-20, 20), r.randint(-20, 20))]
            if len(set(src)) < len(src) or any(not far(p, src[:i], 2) for i, p in enumerate(src)):
                continue
            if all(by(g, p) in t or far(by(g, p), t, 6) for g in (a, b) for p in src):
                if len({by(a, p) for p in src if by(a, p) in t}) == k1 and (same or sum(by(b, p) in t for p in src) == k2):
                    return t, src, a, b


def match(r, n, k1, k2, c1, c, c2, what=None):
    t, src, a, b = scene(r, n, k1, k2)
    g, xc = place(r), place(r)
    while xc == g:
        xc = place(r)
    return [what or r.choice(["match", "align"]), r.choice([1, 1, 2, -1, -1, -2]), int(c1), int(c), int(c2)] + list(g + a + xc + b) + [n] + [
        x for p in t + src for x in p]


def scores(r, n):
    # exactly at the thresholds the last digit would decide
    return [k for k in range(n + 1) if 10 * k not in (6 * n, 7 * n)]


def drive(r):
    ops = []
    for _ in range(r.randint(3, 10)):
        if r.random() < 0.4:
            ops.append(["limit", r.choice([-1, 0, 1, 3, 5, 6, 7, 8, 9])])
        n = r.choice([3, 5, 7, 9, 11, 12, 13])
        ks = scores(r, n)
        ops.append(match(r, n, r.choice(ks), r.choice(ks), r.random() < 0.7, r.random() < 0.85, r.random() < 0.8))
    return ops


def run(ctx):
    r = ctx.rng
    b = vf.bg(vf.build, ctx, "robust_match", ["robust_match.cpp"], ["src/ndt/ndt_cell.cpp"], shims=True, libs=vf.G2O_LIBS)
    dot = vf.model_check(ctx, "MCRobustMatch", {
        "text": "SPECIFICATION Spec\nINVARIANTS Honest Found Direct InRange\nCHECK_DEADLOCK FALSE\n",
        "consts": {"Points": "11", "Scores": ctx.pick("{0, 5, 7, 8, 9, 11}", "0 .. 11"), "Limits": ctx.pick("{-1, 0, 4, 6, 7, 8}", "-1 .. 9")}}, "mc",
        must_take=["Match", "SetLimit"], dump=True, workers=4)
    init, succ = vf.load_graph(dot)
    walks, cov, total = vf.covering_walks(init, succ, r, limit=ctx.pick(6000, 60000), maxlen=60)
    ctx.notes.update({"model_transitions": total, "model_transitions_replayed": cov})
    s = [[match(r, 11, *o[1:]) if o[0] == "match" else list(o) for o in w] for w in walks]
    s += [drive(r) for _ in range(ctx.pick(150, 3000))]
    ev = vf.run_harness(ctx, b(), s)
    vf.validate(ctx, *TR, ev, "tr", "robust matching", s, jobs=7)

    def corrupt(evs):
        for e in evs:
            if e["op"] in ("match", "align") and e["ok"]:
                e["ok"] = False
                return True
    vf.binding_selftest(ctx, *TR, ev, corrupt, "self")
