"""Framework shared by all checks: build harness, run TLC, walk state graphs,
validate recorded traces, write evidence.  See DESIGN.md."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "ndt_gslam")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself cannot answer (exit 2)."""


class Violation(Exception):
    def __init__(self, what, replay=None, detail=None):
        super().__init__(what)
        self.what, self.replay, self.detail = what, replay, detail


# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.rng = random.Random(seed * 1000003 + sum(map(ord, prop)))
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="%s-" % prop, dir=base)
        self.states = 0
        self.transitions = 0
        self.distinct = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.actions = {}
        self.models = []
        self.notes = {}
        self.violations = []
        self.known_hits = []

    @property
    def quick(self):
        return self.tier != "thorough"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        return os.path.join(self.dir, name)

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known", "findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)$", line)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


# ------------------------------------------------------------------ build
CORE_SRC = [
    "src/ndt/ndt_cell.cpp",
    "src/slam_optimizer/max_mixture/edge_se2_mixture.cpp",
    "src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp",
    "src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp",
    "src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp",
    "src/slam_optimizer/switchable_constraints/types_g2o_robust.cpp",
    "src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp",
]
BASE_FLAGS = ["-std=c++17", "-mfpmath=sse", "-msse3", "-fopenmp", "-g1", "-w"]
SAN = ["-fsanitize=address", "-fsanitize=null,return,bounds,vla-bound,unreachable",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


def build(ctx, name, sources, repo_sources=(), shims=False, flags=(), libs=(), san=True,
          opt="-O1"):
    """Compile harness/<sources> plus the listed /repo sources. Returns binary path."""
    out = ctx.path(name)
    inc = ["-I", os.path.join(VERIF, "harness")]
    if shims:
        inc += ["-I", os.path.join(VERIF, "shims")]
    inc += ["-I", os.path.join(PKG, "include"), "-isystem", "/usr/include/suitesparse",
            "-isystem", "/usr/include/eigen3"]
    cc = ["g++-11", opt] + BASE_FLAGS + (SAN if san else []) + list(flags) + inc
    srcs = [os.path.join(VERIF, "harness", s) for s in sources]
    srcs += [os.path.join(PKG, s) for s in repo_sources]
    objs = []

    def one(i):
        o = out + ".%d.o" % i
        r = subprocess.run(cc + ["-c", srcs[i], "-o", o], capture_output=True, text=True,
                           timeout=600)
        return o, r

    with ThreadPoolExecutor(8) as ex:
        for o, r in ex.map(one, range(len(srcs))):
            if r.returncode != 0:
                raise CheckError("harness does not compile against /repo:\n" + r.stderr[-4000:])
            objs.append(o)
    r = subprocess.run(["g++-11"] + (SAN if san else []) + ["-fopenmp"] + objs + ["-o", out] + list(libs),
                       capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise CheckError("harness does not link:\n" + r.stderr[-4000:])
    return out


G2O_LIBS = ["-lg2o_core", "-lg2o_stuff", "-lg2o_types_slam2d", "-lGL"]


# ------------------------------------------------------------------ scripts
def write_script(path, scripts):
    """scripts: list of list of ops; op = list of tokens. A reset separates scripts."""
    with open(path, "w") as f:
        for s in scripts:
            f.write("reset\n")
            for op in s:
                f.write(" ".join(str(t) for t in op) + "\n")


def run_harness(ctx, binary, scripts, tag="h", timeout=240, env=None, args=()):
    """Runs scripts in the real code; returns list of events (one json per op).
    A crash, sanitizer report or hang is a violation (confirmed by a rerun of the one script)."""
    spath, tpath = ctx.path(tag + ".script"), ctx.path(tag + ".trace")
    write_script(spath, scripts)
    e = dict(os.environ)
    e.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0"
                              ":detect_stack_use_after_return=0:max_malloc_fill_size=4096:malloc_fill_byte=203:"
                              "alloc_dealloc_mismatch=0",
              "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=77", "OMP_NUM_THREADS": "2"})
    e.update(env or {})
    rc, err = _run([binary, spath, tpath] + list(args), e, timeout)
    events = read_trace(tpath)
    nops = sum(len(s) + 1 for s in scripts)
    if rc == 0 and len(events) == nops:
        return events
    if rc == 0:
        raise CheckError("harness %s produced %d events for %d ops: %s" % (binary, len(events), nops, err[-500:]))
    if rc == 3:
        raise CheckError("harness error: " + err[-2000:])
    # locate the script, rerun alone to confirm
    k, n = 0, len(events)
    for i, s in enumerate(scripts):
        if n < len(s) + 1:
            k = i
            break
        n -= len(s) + 1
    bad = scripts[k]
    write_script(spath + ".min", [bad])
    rc2, err2 = _run([binary, spath + ".min", tpath + ".min"] + list(args), e, min(timeout, 60))
    if rc2 == 0:
        # only fails in the sequence: keep the whole sequence as replay
        bad = [op for s in scripts[: k + 1] for op in ([["reset"]] + s)]
        rc3, err3 = _run([binary, spath, tpath] + list(args), e, timeout)
        if rc3 == 0:
            raise CheckError("harness failed once and not again (rc %s)\n%s" % (rc, err[-1500:]))
        rc2, err2 = rc3, err3
    what = "hang" if rc2 == "timeout" else "crash"
    done = len(read_trace(tpath + ".min")) if os.path.exists(tpath + ".min") else 0
    op = bad[done - 1] if 0 < done <= len(bad) else None
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|what\(\):[^\n]*|Assertion[^\n]*)", err2)
    raise Violation("%s in the code under test%s: %s" % (what, " at op %s" % (op,) if op else "",
                                                       m.group(1) if m else "rc=%s" % rc2),
                    {"script": bad, "stderr": err2[-3000:]})


def _run(cmd, env, timeout):
    try:
        p = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                             start_new_session=True)
        try:
            _, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return "timeout", "timeout"
        return p.returncode, err.decode(errors="replace")
    except OSError as ex:
        raise CheckError(str(ex))


def read_trace(path):
    ev = []
    if not os.path.exists(path):
        return ev
    with open(path) as f:
        for line in f:
            if not line.endswith("\n"):
                break
            try:
                ev.append(json.loads(line))
            except ValueError:
                break
    return ev


# ------------------------------------------------------------------ TLC
def tlc(ctx, module, cfg, tag, env=None, extra=(), timeout=600, workers=2, heap="3g", defs=None):
    """Runs TLC in a scratch directory holding copies of the spec. Returns (rc, output)."""
    d = ctx.path("tlc-" + tag)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla") or f.endswith(".cfg"):
            shutil.copy(os.path.join(SPEC, f), d)
    if isinstance(cfg, dict):
        # constants that a cfg file cannot express go to a generated module
        text, consts = cfg["text"], cfg.get("consts")
        if consts:
            gen = "Gen_" + tag
            with open(os.path.join(d, gen + ".tla"), "w") as f:
                f.write("---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (
                    gen, module, "\n".join("def_%s == %s" % kv for kv in consts.items())))
            text += "\nCONSTANTS\n" + "\n".join("  %s <- def_%s" % (k, k) for k in consts) + "\n"
            module = gen
        name = "gen_%s.cfg" % tag
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
        cfg = name
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC",
           "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE", "-workers", str(workers),
           "-config", cfg] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s/%s" % (module, cfg))
    shutil.rmtree(os.path.join(d, "md"), ignore_errors=True)
    return r.returncode, r.stdout + r.stderr, d


def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out.replace(",", "", 0))
    if not m:
        m = re.search(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct states found", out)
    gen = int(m.group(1).replace(",", "")) if m else 0
    dist = int(m.group(2).replace(",", "")) if m else 0
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    return gen, dist, int(d.group(1)) if d else 0


def coverage(out):
    """per-action 'distinct:generated' counts of -coverage"""
    res = {}
    for m in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)", out, re.M):
        res[m.group(1)] = res.get(m.group(1), 0) + int(m.group(3))
    return res


def model_check(ctx, module, cfg, tag, must_take=(), timeout=600, dump=False, workers=2, extra=(), env=None, heap="3g",
                cover=True):
    """Exhaustive TLC run of a design spec. The model has to satisfy its properties: otherwise the
    machinery is wrong (CheckError), since the code is not involved."""
    # coverage statistics are costly for specifications with deep recursion: without them, actions are
    # counted in the dumped graph
    ex = (["-coverage", "1"] if cover else []) + list(extra)
    if dump:
        ex += ["-dump", "dot,actionlabels", "graph"]
    rc, out, d = tlc(ctx, module, cfg, tag, extra=ex, timeout=timeout, workers=workers, env=env, heap=heap)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        at = out.find("Error:")
        raise CheckError("TLC on %s (%s) failed:\n%s" % (module, tag, out[at:at + 3000] if at >= 0 else out[-3000:]))
    gen, dist, depth = stats(out)
    cov = coverage(out)
    if not cover and dump:
        with open(os.path.join(d, "graph.dot")) as f:
            for line in f:
                m = re.match(r'^-?\d+ -> -?\d+ \[label="(\w+)', line)
                if m:
                    cov[m.group(1)] = cov.get(m.group(1), 0) + 1
    for a in must_take:
        if cov.get(a, 0) == 0:
            raise CheckError("vacuous model %s: action %s never taken (%s)" % (module, a, cov))
    ctx.states += dist
    ctx.transitions += gen
    ctx.models.append({"module": module, "cfg": cfg if isinstance(cfg, str) else tag, "states": dist,
                       "generated": gen, "depth": depth, "actions": cov})
    return os.path.join(d, "graph.dot") if dump else None


def validate(ctx, module, cfg, events, tag, what, scripts=None, env=None, jobs=4, timeout=600, heap="3g",
             invariants_ok=True):
    """Checks that recorded events (with 'reset' separators) are a behaviour of the trace spec."""
    # split at resets in `jobs` chunks of similar size
    starts = [i for i, e in enumerate(events) if e["op"] == "reset"]
    if not starts:
        raise CheckError("no trace recorded")
    chunks, cur, target = [], [], max(1, len(events) // jobs + 1)
    bounds = starts + [len(events)]
    for a, b in zip(bounds, bounds[1:]):
        cur.append((a, b))
        if sum(y - x for x, y in cur) >= target:
            chunks.append(cur)
            cur = []
    if cur:
        chunks.append(cur)

    def one(i):
        segs = chunks[i]
        p = ctx.path("%s.%d.ndjson" % (tag, i))
        with open(p, "w") as f:
            for a, b in segs:
                for e in events[a:b]:
                    f.write(json.dumps(e, separators=(",", ":")) + "\n")
        n = sum(b - a for a, b in segs)
        ee = {"TRACE": p}
        ee.update(env or {})
        rc, out, _ = tlc(ctx, module, cfg, "%s%d" % (tag, i), env=ee, extra=["-deadlock"], timeout=timeout,
                         workers=1, heap=heap)
        return i, n, rc, out

    with ThreadPoolExecutor(min(len(chunks), 8)) as ex:
        for i, n, rc, out in ex.map(one, range(len(chunks))):
            gen, dist, depth = stats(out)
            if rc == 0 and depth - 1 == n:
                continue
            segs = chunks[i]
            inv = re.search(r"Invariant (\w+) is violated|property (\w+) is violated", out)
            if rc == 0 and depth >= 1:
                pos = depth - 1  # number of matched events
            elif inv:
                ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
                pos = int(ls[-1]) - 2 if ls else 0
            else:
                raise CheckError("TLC cannot evaluate the trace (%s): %s" % (tag, out[-3500:]))
            k = pos
            for a, b in segs:
                if k < b - a:
                    break
                k -= b - a
            ev = events[a + k] if a + k < len(events) else None
            ops = [e for e in events[a:a + k + 1]]
            sidx = starts.index(a)
            raise Violation("%s: step %d of trace %d is not allowed by %s%s: %s" % (
                what, k, sidx, module, " (%s)" % inv.group(0) if inv else "", json.dumps(ev)[:600]),
                {"script": scripts[sidx][:k] if scripts else None, "events": ops[-6:]})
    ctx.traces += len(starts)
    ctx.events += len(events)
    for e in events:
        ctx.actions[e["op"]] = ctx.actions.get(e["op"], 0) + 1
    if len(ctx.samples) < 3:
        ctx.samples.append(events[starts[0]:starts[0] + 6])


def binding_selftest(ctx, module, cfg, events, corrupt, tag, env=None):
    """A corrupted recording has to be rejected, otherwise the trace spec binds nothing."""
    starts = [i for i, e in enumerate(events) if e["op"] == "reset"] + [len(events)]
    ev = None
    for a, b in zip(starts, starts[1:]):
        cand = json.loads(json.dumps(events[a:b]))
        if corrupt(cand):
            ev = cand
            break
    if ev is None:
        raise CheckError("binding self-test %s: nothing to corrupt" % tag)
    p = ctx.path(tag + ".bad.ndjson")
    with open(p, "w") as f:
        for e in ev:
            f.write(json.dumps(e) + "\n")
    ee = {"TRACE": p}
    ee.update(env or {})
    rc, out, _ = tlc(ctx, module, cfg, tag, env=ee, extra=["-deadlock"], workers=1)
    gen, dist, depth = stats(out)
    if rc == 0 and depth - 1 == len(ev):
        raise CheckError("binding self-test %s: a corrupted trace was accepted" % tag)
    ctx.notes.setdefault("corrupted_traces_rejected", 0)
    ctx.notes["corrupted_traces_rejected"] += 1


# ------------------------------------------------------------------ state graph -> scripts
_tok = re.compile(r'\s*(<<|>>|\|->|:>|@@|\[|\]|\{|\}|\(|\)|,|"(?:[^"\\]|\\.)*"|-?\d+|[A-Za-z_]\w*)')


def parse_tla(s):
    toks = _tok.findall(s)
    pos = 0

    def val():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == "<<":
            r = []
            while toks[pos] != ">>":
                r.append(val())
                if toks[pos] == ",":
                    pos += 1
            pos += 1
            return r
        if t == "{":
            r = []
            while toks[pos] != "}":
                r.append(val())
                if toks[pos] == ",":
                    pos += 1
            pos += 1
            return r
        if t == "[":
            r = {}
            while toks[pos] != "]":
                k = toks[pos]
                pos += 2
                r[k] = val()
                if toks[pos] == ",":
                    pos += 1
            pos += 1
            return r
        if t == "(":
            r = {}
            while toks[pos] != ")":
                k = val()
                pos += 1
                r[json.dumps(k)] = val()
                if toks[pos] == "@@":
                    pos += 1
            pos += 1
            return r
        if t[0] == '"':
            return t[1:-1]
        if t == "TRUE":
            return True
        if t == "FALSE":
            return False
        try:
            return int(t)
        except ValueError:
            return t

    return val()


def load_graph(dot, var="op"):
    """TLC dot dump -> quotient graph without the label variable:
    (init core states, {core: [(op, core')]}) with one entry per distinct transition."""
    core, ops, edges, init = {}, {}, [], []
    edge = re.compile(r'^(-?\d+) -> (-?\d+)')
    node = re.compile(r'^(-?\d+) \[label="((?:[^"\\]|\\.)*)"(,style = filled)?(,tooltip=.*)?\]')
    names = {}
    with open(dot) as f:
        for line in f:
            m = edge.match(line)
            if m:
                edges.append((m.group(1), m.group(2)))
                continue
            m = node.match(line)
            if m:
                lab = m.group(2).replace('\\n', '\n').replace('\\"', '"').replace('\\\\', '\\')
                parts = re.split(r'(?:^|\n)/\\ ', lab)
                rest = []
                for p in parts:
                    if p.startswith(var + " = "):
                        ops[m.group(1)] = p[len(var) + 3:]
                    elif p:
                        rest.append(p)
                k = "&".join(rest)
                core[m.group(1)] = names.setdefault(k, len(names))
                if m.group(3):
                    init.append(core[m.group(1)])
    succ, seen, cache = {}, set(), {}
    for a, b in edges:
        k = (core[a], ops[b], core[b])
        if k in seen:
            continue
        seen.add(k)
        if ops[b] not in cache:
            cache[ops[b]] = parse_tla(ops[b].replace("\n", " "))
        succ.setdefault(core[a], []).append((cache[ops[b]], core[b]))
    return init, succ


def covering_walks(init, succ, rng, maxlen=400, limit=None):
    """Scripts that together take every transition of the state graph at least once."""
    todo = {n: list(s) for n, s in succ.items()}
    total = sum(len(v) for v in todo.values())
    for v in todo.values():
        rng.shuffle(v)
    scripts, cov, size = [], 0, 0
    while cov < total:
        if limit and size > limit:
            break
        cur, script, progressed = rng.choice(init), [], False
        while len(script) < maxlen:
            if todo.get(cur):
                op, nxt = todo[cur].pop()
                cov += 1
                progressed = True
                script.append(op)
                cur = nxt
                continue
            prev, q, found = {cur: None}, [cur], None
            for n in q:
                if todo.get(n):
                    found = n
                    break
                for op, m in succ.get(n, ()):
                    if m not in prev:
                        prev[m] = (n, op)
                        q.append(m)
            if found is None:
                break
            path, n = [], found
            while n != cur:
                path.append(prev[n][1])
                n = prev[n][0]
            if len(script) + len(path) > maxlen and progressed:
                break
            script += reversed(path)
            cur = found
        if not progressed:
            # what is left is only reachable from other initial states
            left = [i for i in init if _reaches(i, succ, todo)]
            if not left:
                break
            continue
        scripts.append(script)
        size += len(script)
    return scripts, cov, total


def _reaches(i, succ, todo):
    seen, q = {i}, [i]
    for n in q:
        if todo.get(n):
            return True
        for _, m in succ.get(n, ()):
            if m not in seen:
                seen.add(m)
                q.append(m)
    return False


# ------------------------------------------------------------------ main
def save_replay(ctx, v):
    d = os.path.join(VERIF, "out")
    os.makedirs(d, exist_ok=True)
    body = {"property": ctx.prop, "what": v.what, "replay": v.replay, "seed": ctx.seed, "tier": ctx.tier}
    h = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (ctx.prop, h))
    with open(p, "w") as f:
        json.dump(body, f, indent=1, default=str)
    return p


def evidence(ctx, level, status):
    cov = {
        "states": ctx.states,
        "transitions": ctx.transitions,
        "traces_validated_against_impl": ctx.traces,
        "events_validated": ctx.events,
        "events_per_operation": ctx.actions,
        "models": ctx.models,
        "samples": ctx.samples[:3] or ["none: stopped before the first validated trace"],
    }
    cov.update(ctx.notes)
    d = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
         "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2),
         "violations": len(ctx.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(d, f, indent=1)


def main(prop, fn, level, assumptions):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    ctx.assumptions = assumptions
    rc = 0
    try:
        fn(ctx)
    except Violation as v:
        ctx.violations.append(v)
    except CheckError as e:
        print("ERROR property=%s %s" % (prop, e))
        rc = 2
    except subprocess.TimeoutExpired as e:
        print("ERROR property=%s %s" % (prop, e))
        rc = 2
    for v in ctx.violations:
        p = save_replay(ctx, v)
        print("  " + v.what)
        print("VIOLATION property=%s replay=%s" % (prop, p))
        rc = 1
    for what in ctx.known_hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    evidence(ctx, level, rc)
    if rc == 0:
        print("OK property=%s tier=%s states=%d traces=%d events=%d wall=%.1fs" % (
            prop, tier, ctx.states, ctx.traces, ctx.events, time.time() - ctx.t0))
    if not os.environ.get("VERIF_KEEP"):
        ctx.cleanup()
    return rc


def bg(fn, *a, **k):
    """Runs fn in the background; call the result to wait for it."""
    ex = ThreadPoolExecutor(1)
    f = ex.submit(fn, *a, **k)
    ex.shutdown(wait=False)
    return f.result
