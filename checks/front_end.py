"""C22: the SLAM front end."""
import math
import vf

TR = ("TraceFrontEnd", "TraceFrontEnd.cfg")
SRC = ["src/ndt/ndt_cell.cpp", "src/slam_optimizer/max_mixture/edge_se2_mixture.cpp"] + [
    "src/slam_optimizer/switchable_constraints/%s.cpp" % s for s in ("edge_se2Switchable", "edge_switchPrior", "vertex_switchLinear")]
LIBS = vf.G2O_LIBS + ["-lg2o_csparse_extension", "-lg2o_solver_csparse", "-lcxsparse"]


def spots(r, n):
    out = []
    for _ in range(n):
        a, d = r.uniform(0, 2 * math.pi), r.uniform(22, 90)
        out += [round(d * math.cos(a)), round(d * math.sin(a))]
    return out


def turn(k, v):
    x, y = v
    for _ in range(k % 4):
        x, y = -y, x
    return x, y


class Robot:
    """where the robot is on the lattice, as the model sees it (headings of quarter turns only when `n` is 0)"""

    def __init__(self, r):
        self.r, self.t, self.x, self.y, self.k, self.n = r, 0, 0, 0, 0, 0
        self.marks = [(r.randint(-120, 120), r.randint(-120, 120)) for _ in range(r.randint(2, 6))]
        self.ux = self.uy = self.uk = self.un = self.small = 0

    def scan(self, x, y, k, n):
        r = self.r
        if n == 0 and r.random() < 0.7:
            s = []
            for m in self.marks:
                v = turn(-k, (m[0] - x, m[1] - y))
                if 20 < math.hypot(*v) < 110 and r.random() < 0.8:
                    s += list(v)
            return s + (spots(r, 1) if r.random() < 0.5 or not s else [])
        return spots(r, r.randint(1, 4))

    def update(self, o, small, hit, m, scan, mode=0, off=(0, 0)):
        self.t += self.r.choice([1, 1, 2])
        return ["update"] + list(o) + [small, int(hit)] + list(m) + [self.t, mode] + list(off) + scan

    def first(self):
        return self.update((self.r.randint(-9, 9), 0, 0, 0), 0, 0, (9, 9, 0, 0), self.scan(0, 0, 0, 0))

    def step(self, modes):
        r = self.r
        # small turns: only to be followed by others, until the scan is matched
        if self.small or (r.random() < 0.12):
            d = r.choice([-60000, 40000, 70000, 30000, 120000, -130000])
            if self.small and abs(self.small + d) < abs(self.small):
                d = -d
            if abs(self.small + d) == 100000:
                d += 1000
            self.small += d
            o, due = (0, 0, 0, 0), abs(self.small) > 100000
        else:
            mode = r.random()
            if mode < 0.35:
                v = r.choice([(3, 0), (0, -2), (1, 2), (-2, 2), (2, 3), (0, 0), (3, -1)])
                o = v + (0, 0)
            elif mode < 0.85:
                o = (r.randint(-3, 22), r.randint(-9, 9), 0, r.choice([0, 0, 0, 1, 3, 2]))
            else:
                o = (r.randint(-3, 22), r.randint(-9, 9), r.choice([-1, 1]), r.choice([0, 1])) if self.n == 0 and self.un == 0 else (9, 2, 0, 0)
            d = turn(self.uk, o[:2])
            self.un += o[2]
            due = True
            if self.un == 0:
                nx, ny = self.ux + d[0], self.uy + d[1]
                if nx * nx + ny * ny == 16 and (self.uk + o[3]) % 4 == 0:
                    o = (o[0] + 1,) + o[1:]
                    d = turn(self.uk, o[:2])
                    nx, ny = self.ux + d[0], self.uy + d[1]
                due = nx * nx + ny * ny > 16 or (self.uk + o[3]) % 4 != 0
            self.ux, self.uy, self.uk = self.ux + d[0], self.uy + d[1], (self.uk + o[3]) % 4
        hit = self.small != 0 or self.n != 0 and self.un != 0 or r.random() < 0.72
        if not due:
            return self.update(o, d if self.small else 0, 1, (77, 77, 0, 0), spots(r, 2))
        # the pose odometry leads to, roughly when the heading is not a quarter turn
        v = turn(self.k, (self.ux, self.uy))
        gx, gy, gk, gn = self.x + v[0], self.y + v[1], (self.k + self.uk) % 4, self.n + self.un
        if hit:
            m = (gx + r.choice([0, 0, 5, -7]), gy + r.choice([0, 0, 4, -9]), r.choice([0, 0, gn, r.randint(-1, 1)]), (gk + r.choice([0, 0, 0, 0, 1])) % 4)
            m = (m[0], m[1], max(-1, min(1, m[2])), m[3])
        else:
            m = (r.randint(-99, 99), r.randint(-99, 99), 0, r.randint(0, 3))
        u = self.update(o, d if self.small else 0, hit, m,
                        self.scan(*((m[0], m[1], m[3], m[2]) if hit else (gx, gy, gk, gn))),
                        r.choice(modes), (r.randint(-9, 9), r.randint(-9, 9)))
        if hit:
            self.x, self.y, self.n, self.k = m
        else:
            self.x, self.y, self.n, self.k = gx, gy, gn, gk
        self.ux = self.uy = self.uk = self.un = self.small = 0
        return u


def settings(r):
    return ["settings", r.choice([21, 41, 41, 55, 77, 121]), r.choice([90, 160, 160, 300]), r.choice([0, 1, 3]), r.choice([2, 9, 30, 99]), r.randint(0, 8)]


def drive(r):
    b = Robot(r)
    ops = [settings(r)] if r.random() < 0.95 else []
    modes = r.choice([[0], [0, 1], [1], [0, 0, 1], [0, 0, 0, 2], [0, 1, 2]])
    ops.append(b.first())
    for i in range(r.randint(4, 16)):
        ops.append(b.step(modes))
        if r.random() < 0.08:
            ops.append(["look", r.choice(["map", "world", "odom_frame"])])
        if r.random() < 0.03:
            ops.append(settings(r))
    return ops + [["look", "map"]]


def behind(r):
    """things seen from different places of one frame, one behind the other as seen from the origin of the frame"""
    b = Robot(r)
    a, d = r.uniform(0, 2 * math.pi), r.uniform(26, 45)
    v = (round(d * math.cos(a)), round(d * math.sin(a)))
    ops = [["settings", r.choice([121, 141]), 160, 1, 30, 4], b.update((0, 0, 0, 0), 0, 0, (9, 9, 0, 0), list(v))]
    side = r.choice([-1, 1])
    for t in [r.randint(44, 56) for _ in range(r.randint(1, 2))]:
        x, y, k = round(-side * t * math.sin(a)), round(side * t * math.cos(a)), r.randint(0, 3)
        f = r.uniform(1.8, 2.6)
        w = turn(-k, (round(f * v[0]) - x, round(f * v[1]) - y))
        ops.append(b.update((20, 0, 0, 0), 0, 1, (x, y, 0, k), list(w)))
    x, y = round(-80 * math.cos(a)), round(-80 * math.sin(a))
    ops.append(b.update((20, 0, 0, 0), 0, 1, (x, y, 0, 0), [x // 2, y // 2]))
    return ops + [["look", "map"]]


def one_loop(r):
    """every motion makes a frame; one of them is known from odometry only; one loop is closed, to somewhere else"""
    b = Robot(r)
    n = r.randint(3, 6)
    miss = set(r.sample(range(1, n), r.randint(1, max(1, n - 2))))
    ops = [["settings", 41, 300, 1, 99, 4], b.first()]
    for i in range(1, n + 1):
        dx, dy = r.randint(21, 28), r.randint(-6, 6)
        k = r.choice([0, 0, 1, 3]) if i > 1 else 0
        v = turn(b.k, (dx, dy))
        b.x, b.y, b.k = b.x + v[0], b.y + v[1], (b.k + k) % 4
        off = (r.choice([-8, 8, 12, 0]), r.choice([9, -10]))
        ops.append(b.update((dx, dy, 0, k), 0, i not in miss, (b.x, b.y, 0, b.k), b.scan(b.x, b.y, b.k, 0), 3 if i == n else 0, off))
    return ops + [["look", "map"]]


def dress(walk, r):
    """calls of the model, with scans"""
    out, t = [["settings", 21, 160, 1, 30, 4]], 0
    for op in walk:
        if op[0] != "update":
            continue
        t += 1
        out.append(["update"] + list(op[1]) + [0, op[2]] + list(op[3]) + [t, r.choice([0, 0, 1]), 0, 0] + spots(r, r.randint(1, 2)))
    return out + [["look", "map"]]


def run(ctx):
    r = ctx.rng
    b = vf.bg(vf.build, ctx, "front_end", ["front_end.cpp"], SRC, shims=True, libs=LIBS, san=False)

    def mc(tag, depth, bends, dump):
        return vf.model_check(ctx, "MCFrontEnd", {
            "text": "SPECIFICATION Spec\nINVARIANTS Composed OneDrift Conserved NoneWaiting Chained Inside AllKept Once\nCHECK_DEADLOCK FALSE\n",
            "consts": {"Motions": "{Pose(3, 0, 0, 0), Pose(6, 2, 0, 1), Pose(14, 1, 0, 0)}", "Errors": "{Id, Pose(1, -2, 0, 3)}",
                       "Gen": "21", "Depth": str(depth), "Bends": bends}}, tag,
            must_take=["Start", "Wait"] + ["Matched"] + ([] if dump else ["Bend"]), dump=dump, workers=4, timeout=850, cover=not dump)
    big = vf.bg(mc, "big", ctx.pick(5, 6), "{Pose(2, 1, 0, 1)}", False)
    dot = mc("mc", 5, "{}", True)
    init, succ = vf.load_graph(dot)
    walks, cov, total = vf.covering_walks(init, succ, r, limit=ctx.pick(2500, 60000), maxlen=20)
    ctx.notes.update({"model_transitions": total, "model_transitions_replayed": cov})
    s = [dress(w, r) for w in walks] + [drive(r) for _ in range(ctx.pick(350, 5000))]
    s += [behind(r) for _ in range(ctx.pick(40, 400))]
    s += [one_loop(r) for _ in range(ctx.pick(40, 400))]
    ev = vf.run_harness(ctx, b(), s)
    vf.validate(ctx, *TR, ev, "tr", "front end", s, jobs=7, timeout=800)
    big()

    def corrupt(evs):
        for e in evs:
            if e["op"] == "update" and e["calls"] and not e["hit"]:
                e["ret"][0] += 3000
                return True
    vf.binding_selftest(ctx, *TR, ev, corrupt, "self")
