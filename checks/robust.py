"""C11 C12 C13: switchable constraints and max-mixture elements."""
import math
import vf

ASPECT = {"C11": "switch", "C12": "mixture", "C13": "io"}
LN = "<<" + ",".join(str(round(1000 * math.log(i))) for i in range(1, 1500)) + ">>"
CONSTS = {"LnT": LN, "U": "8"}
MC = """SPECIFICATION Spec
INVARIANTS InUnit Consistent
PROPERTIES Undo Likely
CHECK_DEADLOCK FALSE
CONSTANT MaxStack = %d
"""
SPECCFG = {"text": "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n", "consts": CONSTS}


def det3(a):
    return a[0] * (a[3] * a[5] - a[4] ** 2) - a[1] * (a[1] * a[5] - a[4] * a[2]) + a[2] * (a[1] * a[4] - a[3] * a[2])


def inf3(rng):
    while True:
        d = [rng.choice([1, 1, 2, 3, 5, 10]) for _ in range(3)]
        o = [rng.choice([0, 0, 0, 1, -1, 2]) for _ in range(3)]
        a = [d[0], o[0], o[1], d[1], o[2], d[2]]
        if 0 < det3(a) < 1400 and d[0] * d[1] > o[0] ** 2 and d[0] * d[2] > o[1] ** 2 and d[1] * d[2] > o[2] ** 2:
            return a


def inf2(rng):
    while True:
        a = [rng.choice([1, 1, 2, 5, 30]), rng.choice([0, 0, 1, -1, 2]), rng.choice([1, 2, 3, 20])]
        if a[0] * a[2] - a[1] ** 2 > 0:
            return a


def pose(rng, m=9):
    n = rng.choice([0, 0, 1, -1])
    return [rng.randint(-m, m), rng.randint(-m, m), n, rng.choice([-2, -1, 0, 0, 0, 1, 2, 3])]


def weight(rng):
    return rng.choice([[1, 1], [1, 2], [1, 10], [9, 10], [1, 1000], [3, 7], [99, 100], [5, 1]])


class Gen:
    """keeps the current geometry so that measurements can be made consistent with it"""

    def __init__(self, rng):
        self.rng = rng
        self.p = {i: [0, 0, 0, 0] for i in range(1, 5)}
        self.l = {i: [0, 0] for i in range(1, 4)}
        self.kinds = []

    def meas(self, i, j):
        """close to the true relative pose half of the time (rotations of quarter turns only)"""
        r = self.rng
        a, b = self.p[i], self.p[j]
        if r.random() < 0.6 and a[2] == 0:
            dx, dy = b[0] - a[0], b[1] - a[1]
            for _ in range(a[3] % 4):
                dx, dy = dy, -dx
            return [dx + r.randint(-1, 1), dy + r.randint(-1, 1), b[2], b[3] - a[3] + r.choice([0, 0, 0, 1])]
        return pose(r, 5)

    def pmeas(self, i, l):
        r = self.rng
        a, b = self.p[i], self.l[l]
        if r.random() < 0.7 and a[2] == 0:
            dx, dy = b[0] - a[0], b[1] - a[1]
            for _ in range(a[3] % 4):
                dx, dy = dy, -dx
            return [dx + r.randint(-1, 1), dy + r.randint(-1, 1)]
        return [r.randint(-5, 5), r.randint(-5, 5)]

    def comps(self, t):
        r = self.rng
        n = r.choice([1, 2, 2, 2, 3, 4])
        out = []
        k = r.random()
        i0, j0 = r.sample(range(1, 5), 2)
        l0 = r.randint(1, 3)
        m0 = None
        for c in range(n):
            i, j, l = i0, j0, l0
            if k < 0.6:
                i, j = r.sample(range(1, 5), 2)
                l = r.randint(1, 3)
            if t == "mix":
                m = self.meas(i, j)
                if k > 0.8:
                    m0 = m0 or m
                    m = m0
                out += [i, j] + m + weight(r) + inf3(r)
            else:
                m = self.pmeas(i, l)
                if k > 0.8:
                    m0 = m0 or m
                    m = m0
                out += [i, l] + m + weight(r) + inf2(r)
        return [n] + out

    def geometry(self, ops):
        r = self.rng
        if r.random() < 0.75:
            i = r.randint(1, 4)
            self.p[i] = pose(r)
            ops.append(["pose", i] + self.p[i])
        else:
            i = r.randint(1, 3)
            self.l[i] = [r.randint(-9, 9), r.randint(-9, 9)]
            ops.append(["pt", i] + self.l[i])


def random_script(rng, n, prop):
    g = Gen(rng)
    ops = []
    for _ in range(rng.randint(2, 6)):
        g.geometry(ops)
    sw = prop != "C12"
    mx = prop != "C11"
    while len(ops) < n:
        k = rng.random()
        if len(g.kinds) < 1 or (k < 0.12 and len(g.kinds) < 6):
            c = rng.choice((["sw", "sw", "pr"] if sw else []) + (["mix", "mxy"] if mx else []))
            if c == "sw":
                i, j = rng.sample(range(1, 5), 2)
                ops.append(["mksw", i, j, rng.randint(1, 2)] + g.meas(i, j) + inf3(rng))
            elif c == "pr":
                ops.append(["mkpr", rng.randint(1, 2), rng.choice([0, 2, 8, 8, 5]), rng.choice([1, 10, 300])])
            else:
                ops.append(["mk" + c, rng.randint(0, 1)] + g.comps(c))
            g.kinds.append(c)
        elif k < 0.3:
            g.geometry(ops)
        elif k < (0.55 if sw else 0.3):
            i = rng.randint(1, 2)
            o = rng.choice(["set", "upd", "upd", "push", "pop", "discard", "origin", "rwsw"])
            if o == "set":
                ops.append([o, i, rng.choice([0, 1, 3, 4, 8, 8, 9, -1])])
            elif o == "upd":
                ops.append([o, i, rng.choice([-20, -8, -3, -1, 0, 1, 1, 2, 5, 8, 11])])
            else:
                ops.append([o, i])
        elif k < 0.6 and mx:
            c = [i for i, t in enumerate(g.kinds) if t in ("mix", "mxy")]
            if c:
                i = rng.choice(c)
                t = g.kinds[i]
                ops.append(["init" + t, i + 1, 0] + g.comps(t))
        elif k < (0.75 if prop == "C13" else 0.63):
            ops.append(["ser", rng.randint(1, len(g.kinds)), rng.randint(0, 1)])
        elif k < 0.67 and prop == "C11":
            ops.append(["opt", rng.choice([1, 3, 8])])
        else:
            ops.append([rng.choice(["err", "err", "lin"]), rng.randint(1, len(g.kinds))])
    return ops


SETUP = [["mksw", 1, 2, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 1], ["mkpr", 1, 8, 3],
         ["mkmix", 1, 2, 1, 2, 1, 0, 0, 0, 9, 10, 1, 0, 0, 1, 0, 1, 1, 3, 1, 0, 0, 0, 1, 10, 4, 1, 0, 3, 0, 2],
         ["mkmxy", 1, 2, 1, 1, 1, 0, 9, 10, 1, 0, 1, 2, 2, 1, 0, 1, 10, 3, 1, 2]]


def run(ctx):
    b = vf.bg(vf.build, ctx, "robust", ["robust.cpp"], vf.CORE_SRC[1:], libs=vf.G2O_LIBS)

    def mc(tag, poses, deltas, stack, dump):
        c = dict(CONSTS)
        c["PoseChoices"] = "{" + ",".join("Pose(%d,%d,%d,%d)" % p for p in poses) + "}"
        c["Deltas"] = "{" + ",".join(map(str, deltas)) + "}"
        return vf.model_check(ctx, "MCRobustEdges", {"text": MC % stack, "consts": c}, tag,
                              must_take=["Move", "Sws", "Push", "Pop", "Discard", "Eval"], dump=dump, workers=4)

    dot = mc("mc", [(0, 0, 0, 0), (1, 0, 1, 1)], [-9, 5], 1, True)
    init, succ = vf.load_graph(dot)
    walks, cov, total = vf.covering_walks(init, succ, ctx.rng, limit=ctx.pick(6000, 100000), maxlen=120)
    walks = [SETUP + w for w in walks]
    ctx.notes["model_transitions_replayed"] = cov
    ctx.notes["model_transitions"] = total
    if not ctx.quick:
        mc("mcbig", [(0, 0, 0, 0), (1, 0, 1, 0), (-1, 2, 0, 1), (2, 1, -1, 2)], [-9, 5, -1], 1, False)
    s = walks + [random_script(ctx.rng, 40, ctx.prop) for _ in range(ctx.pick(250, 4000))]
    ev = vf.run_harness(ctx, b(), s)
    vf.validate(ctx, "TraceRobustEdges", SPECCFG, ev, "tr", "robust edges", s, env={"ASPECT": ASPECT[ctx.prop]}, jobs=7)

    def corrupt(evs):
        for e in evs:
            if ctx.prop == "C11" and e["op"] == "upd" and e["sws"][e["i"] - 1] > 0:
                e["sws"][e["i"] - 1] -= 1
                return True
            if ctx.prop == "C12" and e["op"] == "err" and e["el"][e["e"] - 1]["t"] == "mix":
                e["err"][0] += 50
                return True
            if ctx.prop == "C13" and e["op"] == "ser":
                x = e["el"][e["e"] - 1]
                if x["t"] == "sw":
                    x["inf"][1] += 1
                    return True
    vf.binding_selftest(ctx, "TraceRobustEdges", SPECCFG, ev, corrupt, "self", env={"ASPECT": ASPECT[ctx.prop]})
