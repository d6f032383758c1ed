"""C04..C08: VoxelGrid2D."""
import vf

T = 16
MC = """SPECIFICATION Spec
CONSTANTS T = 16  Ops = {%(ops)s}  Vals = {%(vals)s}  MaxV = %(maxv)d  MaxExt = %(ext)d  MaxCells = %(maxc)d  RayMax = %(raym)d
INVARIANT WellFormed
PROPERTIES GrowOnly WriteRead %(props)s
CHECK_DEADLOCK FALSE
"""


def tup(l):
    return ", ".join("<<%d, %d>>" % p for p in l)


def q(l):
    return ", ".join('"%s"' % x for x in l)


def mc(ctx, thorough=False):
    p = ctx.prop
    d = dict(vals="1, 2", maxv=3, ext=2, maxc=4, raym=9, moves="-1, 0, 1", ends="<<0, 0>>", props="KeepAll Independent")
    if p == "C04":
        d.update(ops=q(["add", "remove", "enlarge", "clear"]), spots=tup([(0, 0), (8, -8), (-25, 16), (-7, -24)]),
                 vals="1", maxv=2)
        if thorough:
            d.update(vals="1, 2", maxv=3)
        must = ["DoAdd", "DoRemove", "DoEnlarge", "DoClear"]
    elif p == "C05":
        d.update(ops=q(["add", "translate"]), spots=tup([(0, 0), (20, 3), (-9, -16)]), vals="1", maxv=1, ext=2 if thorough else 1, maxc=3,
                 moves="-2, -1, 0, 1, 3" if not thorough else "-3, -2, -1, 0, 1, 2, 3")
        must = ["DoAdd", "DoTranslate"]
    elif p == "C06":
        d.update(ops=q(["add", "remove", "translate", "ray", "clear"]), spots=tup([(0, 0), (24, 7)]), vals="1", maxv=1,
                 ext=1, maxc=9, raym=2, moves="-1, 0, 1",
                 ends=tup([(32, 0), (-40, 30)]))
        must = ["DoAdd", "DoRay", "DoRemove"]
    elif p == "C07":
        d.update(ops=q(["enlarge", "ray", "clear"]), spots=tup([(0, 0), (-24, 17), (30, -40)]), vals="1", maxv=1, ext=3, maxc=49, raym=1,
                 ends=tup([(x, y) for x in (-48, -17, 0, 9, 40) for y in (-40, -8, 0, 23, 48)]))
        must = ["DoRay", "DoEnlarge"]
    else:
        d.update(ops=q(["add", "remove", "copy", "translate"]), spots=tup([(0, 0), (20, -20)]), vals="1", maxv=1, ext=1, maxc=2,
                 moves="0, 1")
        must = ["DoAdd", "DoCopy", "DoOther", "DoSelf"]
    consts = {k: "{%s}" % d[k.lower()] for k in ("Spots", "Moves", "Ends")}
    return vf.model_check(ctx, "MCVoxelGrid", {"text": MC % d, "consts": consts}, "mc" + ("big" if thorough else ""), must_take=must,
                          dump=not thorough, workers=4, timeout=800)


def rpos(rng, r, border):
    """position in ticks; on cell borders only where the arithmetic is exact"""
    while True:
        p = [rng.randint(-16 * r, 16 * r), rng.randint(-16 * r, 16 * r)]
        if rng.random() < 0.3:
            p = [16 * rng.randint(-r, r) + 8 * rng.randint(0, 1), 16 * rng.randint(-r, r) + 8 * rng.randint(0, 1)]
        if border or all(x % 16 != 8 for x in p):
            return p


def queries(rng, r, border, n):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.4:
            out.append(["at", 1] + rpos(rng, r + 1, border))
        elif k < 0.8:
            out.append(["neigh", 1] + rpos(rng, r + 1, border) + [rng.choice([0, 0, 1, 1, 2, 3, 20])])
        else:
            out.append(["list", 1])
    return out


def random_script(rng, prop, n, border=True):
    ops = []
    r = rng.choice([1, 2, 3, 5, 8])
    have2 = False
    rp = lambda rr=r: rpos(rng, rr, border)
    if prop in ("C05", "C06", "C07") or rng.random() < 0.5:
        for _ in range(rng.randint(1, 12)):
            ops.append(["add", 1] + rp() + [rng.randint(1, 99), rng.randint(0, 1), rng.randint(0, 1)])
    while len(ops) < n:
        x = rng.random()
        if prop == "C04":
            if x < 0.7:
                ops.append(["add", 1] + rp() + [rng.randint(1, 99), rng.randint(0, 1), rng.randint(0, 1)])
            elif x < 0.85:
                ops.append(["remove", 1] + rp(r + 1))
            elif x < 0.97:
                a, b = rp(r + 1), rp(r + 1)
                if rng.random() < 0.8:
                    a, b = [min(a[0], b[0]), min(a[1], b[1])], [max(a[0], b[0]), max(a[1], b[1])]
                ops.append(["enlarge", 1] + a + b)
            else:
                ops.append(["clear", 1])
        elif prop == "C05":
            if x < 0.4:
                ops.append(["add", 1] + rp() + [rng.randint(1, 99), rng.randint(0, 1), 0])
            else:
                m = rng.choice([1, 2, 3, r, r + 2, 2 * r + 1, 2 * r + 2])
                dis = rng.random() < 0.75 or len(ops) > 40
                if not dis:
                    m = min(m, 3)
                ops.append(["translate", 1, rng.randint(-m, m), rng.randint(-m, m), int(dis)])
        elif prop == "C06":
            if x < 0.35:
                ops.append(["add", 1] + rp() + [rng.randint(1, 99), rng.randint(0, 1), 0])
            elif x < 0.45:
                ops.append(["remove", 1] + rp())
            elif x < 0.52:
                ops.append(["translate", 1, rng.randint(-1, 1), rng.randint(-1, 1), 1])
            elif x < 0.57:
                ops.append(["ray", 1] + rp() + rp())
            elif x < 0.585:
                ops.append(["clear", 1])
            elif x < 0.62:
                ops.append(["enlarge", 1] + rp() + rp())
            ops += queries(rng, r, border, 2)
        elif prop == "C07":
            if x < 0.08:
                ops.append(["enlarge", 1] + rp() + rp())
            elif x < 0.12:
                ops.append(["remove", 1] + rp())
            elif x < 0.2:
                ops.append(["translate", 1, rng.randint(-1, 1), rng.randint(-1, 1), 1])
            else:
                s = rp() if rng.random() < 0.7 else [0, 0]
                e = rpos(rng, rng.choice([r, r, r + 1, 3 * r, 20]), True)
                k = rng.random()
                if k < 0.1:
                    e = list(s)
                elif k < 0.25:
                    e = [s[0] + rng.randint(-20, 20), s[1] + rng.randint(-20, 20)]
                elif k < 0.4:
                    e[rng.randint(0, 1)] = s[0]
                elif k < 0.55:
                    e[0] = s[0]
                elif k < 0.7:
                    e[1] = s[1]
                ops.append(["ray", 1] + s + e)
        else:
            k = 1 + int(have2 and rng.random() < 0.5)
            if x < 0.5:
                ops.append(["add", k] + rp() + [rng.randint(1, 99), rng.randint(0, 1), rng.randint(0, 1)])
            elif x < 0.6:
                ops.append(["remove", k] + rp())
            elif x < 0.7:
                ops.append(["translate", k, rng.randint(-1, 1), rng.randint(-1, 1), 1])
            elif x < 0.74:
                ops.append(["selfassign", k])
            elif x < 0.76:
                ops.append(["clear", k])
            else:
                src = k
                dst = 3 - k if have2 else 2
                how = rng.choice(["copyctor", "copyassign", "movector", "moveassign", "clone"])
                if how == "clone":
                    ops.append(["clone", src, dst])
                elif how in ("movector", "moveassign"):
                    ops.append(["copythen", how, src, dst])
                else:
                    ops.append([how, src, dst])
                have2 = True
    return ops


def growth_scripts(rng, steps):
    """every combination of growth on the four sides in one call, from filled asymmetric grids"""
    out = []
    for l in steps:
        for r in steps:
            for u in steps:
                for d in steps:
                    a, b, c, e = [rng.randint(0, 2) for _ in range(4)]
                    s = [["enlarge", 1, -16 * a, -16 * e, 16 * b, 16 * c]]
                    n = 1
                    for x in range(-a, b + 1):
                        for y in range(-e, c + 1):
                            if rng.random() < 0.8:
                                s.append(["add", 1, 16 * x, 16 * y, n, 0, n % 2])
                                n += 1
                    s.append(["enlarge", 1, -16 * (a + l), -16 * (e + d), 16 * (b + r), 16 * (c + u)])
                    out.append(s)
    return out


def run(ctx):
    dot = mc(ctx)
    init, succ = vf.load_graph(dot)
    walks, cov, total = vf.covering_walks(init, succ, ctx.rng, limit=ctx.pick(14000, 200000))
    ctx.notes["model_transitions_replayed"] = cov
    ctx.notes["model_transitions"] = total
    if ctx.prop == "C06":
        # interleave queries at every step of the model's behaviours
        walks = [[x for op in s for x in [op] + (queries(ctx.rng, 2, True, 1) if ctx.rng.random() < 0.5 else [])]
                 for s in walks]
    if not ctx.quick:
        mc(ctx, True)
    b = vf.build(ctx, "voxel_grid", ["voxel_grid.cpp"])
    n = ctx.pick(30, 300)
    ln = {"C06": 60}.get(ctx.prop, 60)
    jobs = []
    for size in ("default", "1", "0.5", "0.3", "0.1"):
        border = size not in ("0.3", "0.1")
        s = [random_script(ctx.rng, ctx.prop, ln, border) for _ in range(n)]
        if size == "default":
            s = walks + s
            if ctx.prop == "C04":
                s += growth_scripts(ctx.rng, ctx.pick((0, 1, 2), (0, 1, 2, 5)))
        jobs.append((size, s))
    allev, alls = [], []
    for size, s in jobs:
        allev += vf.run_harness(ctx, b, s, args=[size], tag="h" + size)
        alls += s
    vf.validate(ctx, "TraceVoxelGrid", "TraceVoxelGrid.cfg", allev, "tr", "voxel grid", alls, jobs=7)

    def corrupt(evs):
        for e in evs:
            if e["op"] != "reset" and e["grids"][0]["cells"]:
                e["grids"][0]["cells"][0][2] += 1
                return True
    vf.binding_selftest(ctx, "TraceVoxelGrid", "TraceVoxelGrid.cfg", allev, corrupt, "self")
