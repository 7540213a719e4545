"""Simulator A: the C++ embedding engine (real code, instrumented) under simulated threads, clocks, allocator and interrupts."""
import hashlib, json, os, subprocess, signal
from core import *

SIM = os.path.join(VERIF, "sim")
MODES = {"seq": 0, "random": 1, "pct": 2, "sync": 3, "rr": 4, "starve": 5, "trace": 6}
KINDS = {"find": 0, "new": 1, "mfind": 2, "qpass": 3, "setinit": 4, "del": 5}
STEP_CAP = 60_000_000


def build_engine():
    inc = os.path.join(REPO, "include")
    srcs = tree(inc, (".hpp", ".h"))
    own = [os.path.join(SIM, f) for f in ("rt.hpp", "rt.cpp", "plan.hpp", "engine.cpp", "main.cpp")]
    key = digest(srcs + own, "v4")

    def make(d):
        cxx = "clang++"
        cmds = [
            [cxx, "-std=c++17", "-O2", "-g1", "-c", own[1], "-o", d + "/rt.o"],
            [cxx, "-std=c++17", "-O1", "-c", own[4], "-o", d + "/main.o"],
            [cxx, "-std=c++17", "-O1", "-g1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-I" + inc, "-I" + SIM,
             "-include", "memory", "-c", own[3], "-o", d + "/engine.o"],
        ]
        ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for c in cmds]
        for p in ps:
            o, _ = p.communicate()
            if p.returncode:
                raise CheckError("engine build failed:\n" + o[-4000:])
        sh(["objcopy"] + ["--redefine-sym=%s=sim_%s" % (f, f) for f in ("snprintf", "vsnprintf", "strlen")] + [d + "/engine.o"])
        sh([cxx, "-no-pie", d + "/rt.o", d + "/main.o", d + "/engine.o", "-o", d + "/simd", "-ldl", "-lpthread"])
    return os.path.join(build_dir("engine", key, make), "simd")


def _ints(v):
    return [len(v)] + list(v)


def _chains(m):
    o = [len(m)]
    for k, c in m:
        o += [k, len(c)] + list(c)
    return o


def _pairs(v):
    o = [len(v)]
    for a, b in v:
        o += [a, b]
    return o


def env(**kw):
    e = {"mode": "seq", "sseed": 1, "param": 8, "stall": 0, "spurious": 0, "ns": 10, "read": 50, "drift": 0, "garbage": 0, "cap": STEP_CAP,
         "trace": [], "adv": [], "jump": [], "nf": [], "tf": [], "cp": [], "cs": []}
    e.update(kw)
    return e


def prob(**kw):
    p = {"S": [], "T": [], "tries": 1, "mni": 2, "ir": 8, "clp": 1, "threads": 1, "timeout": 1e6, "max_beta": 1e300, "max_fill": 1 << 30,
         "overlap": 0, "skip": 0, "verbose": 0, "interactive": 0, "seed": 1, "fixed": [], "initial": [], "restrict": []}
    p.update(kw)
    return p


def op(k, **kw):
    o = {"k": k, "p": -1, "cancel": 0, "late": 0, "late_ns": 0, "log_ns": 0, "pre_ns": 0, "clean": 0, "order": [], "strategy": 0, "clb": 0, "ob": 0,
         "ls": 0, "cf": 1, "rb": 1e64, "chains": []}
    o.update(kw)
    return o


def serialise(plan):
    e = plan["env"]
    t = [MODES[e["mode"]], e["sseed"], e["param"], e["stall"], e["spurious"], e["ns"], e["read"], e["drift"], e["garbage"], e["cap"]]
    t += _pairs(e["trace"]) + _pairs(sorted(e["adv"])) + _pairs(sorted(e["jump"])) + _ints(e["nf"]) + _ints(e["tf"]) + _ints(e["cp"]) + _ints(sorted(e["cs"]))
    t.append(len(plan["problems"]))
    for p in plan["problems"]:
        t += _pairs(p["S"]) + _pairs(p["T"])
        t += [p["tries"], p["mni"], p["ir"], p["clp"], p["threads"], repr(float(p["timeout"])), repr(float(p["max_beta"])), p["max_fill"], p["overlap"],
              p["skip"], p["verbose"], p["interactive"], p["seed"]]
        t += _chains(p["fixed"]) + _chains(p["initial"]) + _chains(p["restrict"])
    t.append(len(plan["callers"]))
    for c in plan["callers"]:
        t += [c["p"], len(c["ops"])]
        for o in c["ops"]:
            t += [KINDS[o["k"]], o["p"], o["cancel"], o["late"], o["late_ns"], o["log_ns"], o["pre_ns"], o["clean"]] + _ints(o["order"])
            t += [o["strategy"], o["clb"], o["ob"], o["ls"], o["cf"], repr(float(o["rb"]))] + _chains(o["chains"])
    return " ".join(map(str, t))


class Server:
    def __init__(self, exe, wall_ms=120000):
        self.args = [exe, str(wall_ms)]
        self.p = None

    def run(self, plan, stats=None):
        if self.p is None:
            self.p = subprocess.Popen(self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.p.stdin.write(serialise(plan) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise CheckError("simulation server died")
        r = json.loads(line)
        if r["status"] in ("internal", "exit", "wallclock"):
            raise CheckError("simulator: %s %s" % (r["status"], r["detail"]))
        if stats is not None and "fired" in r:
            stats.add("runs")
            stats.add("sim_ns", r["mono"] - 1000000000000)
            for k, n in r["fired"].items():
                if n:
                    stats.add("fault:" + {"new": "allocation_failure", "thread": "thread_creation_failure", "cancel": "interrupt", "jump": "wall_clock_jump",
                                          "adv": "elapsed_time_stall", "stall": "task_stall", "spurious": "spurious_wakeup"}[k], n)
            stats.add("instrumented_steps", r["steps"])
            stats.add("context_switches", r["switches"])
            stats.add("threads_created", r["threads"])
            stats.peak("live_tasks", r["max_live"])
            stats.see("schedules", r["hash"])
            stats.see("statuses", r["status"])
            for c in r["ops"]:
                for o in c:
                    if o["cancelled"]:
                        stats.add("fault:interrupt_seen_by_poll", o["cancelled"])
        return r

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None


def outcome(o):
    """the part of an operation's result that a caller can see"""
    return (o["rc"], o["exc"], None if o["chains"] is None else tuple(tuple(c) for c in o["chains"]))


def short(o):
    return {"rc": o["rc"], "exc": o["exc"], "chains": o["chains"], "polls": o["polls"]}


# ------------------------------------------------------------------ reference semantics of an embedding problem
class Ref:
    """the embedding problem as plain sets; shares no code with the engine"""

    def __init__(self, p):
        self.p = p
        self.nS = 1 + max(max(e) for e in p["S"])
        self.nT = 1 + max(max(e) for e in p["T"])
        self.sadj = [(a, b) for a, b in p["S"] if a != b]
        self.tadj = [set() for _ in range(self.nT)]
        for a, b in p["T"]:
            if a != b:
                self.tadj[a].add(b)
                self.tadj[b].add(a)
        self.fixed = {k: sorted(set(c)) for k, c in p["fixed"]}
        self.restrict = {k: set(c) for k, c in p["restrict"]}
        self.allq = set(range(self.nT))
        self._dom = {}
        # nodes handed in against the restrictions by initial chains
        self.extra = {q for v, c in p["initial"] if v in self.restrict for q in c if q not in self.restrict[v]}

    def sweep(self):
        """a scale for the work of one sweep over all source nodes, each connecting to all of its neighbours"""
        return (self.nS + 2 * len(self.sadj)) * (self.nT + 2 * len(self.p["T"]))

    def connected(self, c):
        c = set(c)
        if not c:
            return False
        st = [next(iter(sorted(c)))]
        seen = set(st)
        while st:
            x = st.pop()
            for y in self.tadj[x]:
                if y in c and y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen == c

    def domain(self, v):
        """restrictions are documented as soft: a path between two chains may run through either domain"""
        if v not in self._dom:
            d = set(self.restrict[v])
            for a, b in self.sadj:
                if v in (a, b):
                    d |= self.restrict.get(b if a == v else a, self.allq)
            self._dom[v] = d
        return self._dom[v] | self.extra if self.extra else self._dom[v]

    def constraints(self, chains):
        """what must hold of any answer, valid or not"""
        if len(chains) != self.nS:
            return "%d chains for %d source nodes" % (len(chains), self.nS)
        for v, c in enumerate(chains):
            for q in c:
                if not 0 <= q < self.nT:
                    return "chain of %d contains %d, not a target node" % (v, q)
            if len(set(c)) != len(c):
                return "chain of %d lists a node twice: %s" % (v, c)
        for v, c in self.fixed.items():
            if sorted(chains[v]) != c:
                return "fixed chain of %d is %s, not %s" % (v, sorted(chains[v]), c)
        fq = {q: v for v, c in self.fixed.items() for q in c}
        for v, c in enumerate(chains):
            if v in self.fixed:
                continue
            for q in c:
                if q in fq:
                    return "chain of %d uses %d, reserved by the fixed chain of %d" % (v, q, fq[q])
            if v in self.restrict and not set(c) <= self.domain(v):
                return "chain of %d uses %s, in neither its own domain nor that of an adjacent source node" % (v, sorted(set(c) - self.domain(v)))
        return None

    def valid(self, chains):
        e = self.constraints(chains)
        if e:
            return e
        owner = {}
        for v, c in enumerate(chains):
            if not c:
                return "source node %d has no chain" % v
            if v not in self.fixed and not self.connected(c):
                return "chain of %d is not connected: %s" % (v, sorted(c))
            for q in c:
                if q in owner and not (v in self.fixed and owner[q] in self.fixed):
                    return "chains of %d and %d share target node %d" % (owner[q], v, q)
                owner[q] = v
        for a, b in self.sadj:
            if a in self.fixed and b in self.fixed:
                continue
            if not any(y in self.tadj[x] for x in chains[a] for y in chains[b]):
                return "source edge (%d, %d) is not covered" % (a, b)
        return None

    def quality(self, chains):
        """(max length, number of that length, histogram below), smaller is better; chains the engine may choose"""
        L = [len(c) for v, c in enumerate(chains) if v not in self.fixed]
        m = max(L)
        return tuple([m] + [L.count(k) for k in range(m, 0, -1)])


def check_answer(ref, o):
    """None or a description of how one operation's answer breaks C02"""
    if o["exc"]:
        return None
    p = ref.p
    if o["rc"]:
        if o["chains"] is None:
            return "success without chains"
        return ref.valid(o["chains"])
    if not p["overlap"]:
        if o["chains"]:
            return "failure with a non-empty mapping"
        return None
    return ref.constraints(o["chains"]) or denied(ref, o["chains"])


def denied(ref, chains):
    if p_full(chains) and ref.valid(chains) is None:
        return "failure reported with a valid embedding"
    return None


def p_full(chains):
    return bool(chains) and all(chains)


# ------------------------------------------------------------------ generators
def _relabel(rng, n, edges, shuffle=True):
    perm = list(range(n))
    if shuffle:
        rng.shuffle(perm)
    e = [(perm[a], perm[b]) if rng.random() < .5 else (perm[b], perm[a]) for a, b in edges]
    if shuffle:
        rng.shuffle(e)
    used = {x for x in e for x in x}
    for v in range(n):
        if v not in used:
            e.append((v, v))
    return e


def grid(a, b):
    return a * b, [(i * b + j, i * b + j + 1) for i in range(a) for j in range(b - 1)] + [(i * b + j, i * b + j + b) for i in range(a - 1) for j in range(b)]


def complete(n):
    return n, [(i, j) for i in range(n) for j in range(i)]


def bip(a, b):
    return a + b, [(i, a + j) for i in range(a) for j in range(b)]


def chimera(m, n, t):
    N = m * n * 2 * t
    f = lambda i, j, u, k: ((i * n + j) * 2 + u) * t + k
    e = []
    for i in range(m):
        for j in range(n):
            e += [(f(i, j, 0, k), f(i, j, 1, l)) for k in range(t) for l in range(t)]
            if i + 1 < m:
                e += [(f(i, j, 0, k), f(i + 1, j, 0, k)) for k in range(t)]
            if j + 1 < n:
                e += [(f(i, j, 1, k), f(i, j + 1, 1, k)) for k in range(t)]
    return N, e


def drop(rng, n, edges, pn, pe):
    keep = [v for v in range(n) if rng.random() >= pn]
    if len(keep) < 3:
        keep = list(range(n))
    ix = {v: i for i, v in enumerate(keep)}
    return len(keep), [(ix[a], ix[b]) for a, b in edges if a in ix and b in ix and rng.random() >= pe]


def gen_source(rng, big=False):
    k = rng.choice(["K", "K", "path", "cycle", "star", "grid", "gnp", "gnp", "bip", "two"])
    hi = 7 if big else 5
    if k == "K":
        n, e = complete(rng.randint(2, hi))
    elif k == "path":
        n = rng.randint(2, hi + 2); e = [(i, i + 1) for i in range(n - 1)]
    elif k == "cycle":
        n = rng.randint(3, hi + 2); e = [(i, (i + 1) % n) for i in range(n)]
    elif k == "star":
        n = rng.randint(3, hi + 2); e = [(0, i) for i in range(1, n)]
    elif k == "grid":
        n, e = grid(2, rng.randint(2, 3 + big))
    elif k == "bip":
        n, e = bip(rng.randint(1, 3), rng.randint(2, 3 + big))
    elif k == "two":
        a, ea = complete(rng.randint(2, 3)); b, eb = complete(rng.randint(2, 3))
        n, e = a + b, ea + [(x + a, y + a) for x, y in eb]
    else:
        n = rng.randint(3, hi + 2); q = rng.choice([.2, .5, .8]); e = [(i, j) for i in range(n) for j in range(i) if rng.random() < q]
    if rng.random() < .12:
        n += rng.randint(1, 2)  # isolated nodes
    e = _relabel(rng, n, e)
    if rng.random() < .1:
        e.append(rng.choice(e))
    return e


def gen_target(rng, big=False):
    k = rng.choice(["grid", "grid", "grid", "K", "path", "cycle", "chim", "chim", "gnp", "bip", "two"])
    if k == "grid":
        n, e = grid(rng.randint(2, 4 + big), rng.randint(3, 5 + big))
    elif k == "K":
        n, e = complete(rng.randint(3, 9))
    elif k == "path":
        n = rng.randint(3, 12); e = [(i, i + 1) for i in range(n - 1)]
    elif k == "cycle":
        n = rng.randint(3, 14); e = [(i, (i + 1) % n) for i in range(n)]
    elif k == "chim":
        n, e = chimera(rng.randint(1, 2), rng.randint(1, 2), rng.randint(2, 3 + big))
    elif k == "bip":
        n, e = bip(rng.randint(2, 5), rng.randint(3, 6))
    elif k == "two":
        a, ea = grid(2, rng.randint(3, 5)); b, eb = complete(rng.randint(2, 5))
        n, e = a + b, ea + [(x + a, y + a) for x, y in eb]
    else:
        n = rng.randint(6, 16); q = rng.choice([.2, .35, .5]); e = [(i, j) for i in range(n) for j in range(i) if rng.random() < q]
    if rng.random() < .3:
        n, e = drop(rng, n, e, rng.choice([0, .1, .2]), rng.choice([0, .1]))
    if not e:
        n, e = grid(2, 3)
    return _relabel(rng, n, e)


def components(n, edges):
    par = list(range(n))

    def f(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    for a, b in edges:
        par[f(a)] = f(b)
    out = {}
    for v in range(n):
        out.setdefault(f(v), []).append(v)
    return sorted(out.values(), key=lambda c: -len(c))


def rand_chain(rng, adj, nodes, size, start=None):
    c = [rng.choice(nodes) if start is None else start]
    while len(c) < size:
        fr = sorted(({y for x in c for y in adj[x]} & set(nodes)) - set(c))
        if not fr:
            break
        c.append(rng.choice(fr))
    return c


def gen_problem(rng, big=False, hints=True, threads=1, hard=None):
    p = prob(S=gen_source(rng, big), T=gen_target(rng, big))
    p["seed"] = rng.getrandbits(64)
    p["tries"] = rng.choice([1, 1, 2, 3])
    p["mni"] = rng.choice([1, 1, 2, 2, 3, 5])
    p["ir"] = rng.choice([2, 4, 8, 30, 200, 2 ** 31 - 1])
    p["clp"] = rng.choice([0, 1, 1, 2, 3])
    p["threads"] = threads
    if rng.random() < .15:
        p["max_beta"] = rng.choice([0.5, 1.5, 2.0, 10.0])
    if rng.random() < .15:
        p["max_fill"] = rng.choice([2, 3, 4, 8])
    p["overlap"] = int(rng.random() < .4)
    p["verbose"] = rng.choice([0, 0, 0, 1, 2, 3])
    p["interactive"] = int(rng.random() < .4)
    if hints and rng.random() < .5:
        gen_hints(rng, p)
    if hints and rng.random() < .06:
        skip = p["skip"]
        gen_odd_hints(rng, p)
        p["skip"] = skip
    return p


def gen_hints(rng, p):
    nS = 1 + max(max(e) for e in p["S"])
    nT = 1 + max(max(e) for e in p["T"])
    ref = Ref(p)
    comp = components(nT, p["T"])
    if len(comp) > 1 and len(comp[0]) == len(comp[1]):
        return      # which component is used is the library's choice
    big = comp[0]
    vs = list(range(nS))
    rng.shuffle(vs)
    used = set()
    if rng.random() < .5:
        for v in vs[:rng.randint(1, max(1, nS // 3))][:max(0, nS - 1)]:
            free = [q for q in big if q not in used]
            if len(free) < 4:
                break
            c = [q for q in rand_chain(rng, ref.tadj, free, rng.randint(1, 3)) if q not in used]
            # keep it connected and do not cut off the rest of the component
            if not c or not ref.connected(c):
                continue
            rest = [q for q in big if q not in used and q not in c]
            used |= set(c)
            p["fixed"].append((v, c))
    fixedv = {v for v, _ in p["fixed"]}
    free = [q for q in big if q not in used]
    if rng.random() < .4 and free:
        for v in vs:
            if v in fixedv or rng.random() < .5:
                continue
            c = rand_chain(rng, ref.tadj, free, rng.randint(1, 3))
            c = [q for q in c if q not in used]
            if c and ref.connected(c):
                p["initial"].append((v, c))
    x = rng.random()
    if x < .2 and free:          # small domains around places where the variable could be
        sadj = {}
        for a, b in p["S"]:
            sadj.setdefault(a, []).append(b)
            sadj.setdefault(b, []).append(a)
        ini, at = dict(p["initial"]), {}
        for v in vs:
            if v in fixedv or v in at:
                continue
            todo = [v]
            at[v] = rng.choice(free)
            while todo:
                u = todo.pop(0)
                near = rand_chain(rng, ref.tadj, free, 6, at[u])
                for w in sadj.get(u, ()):
                    if w not in at and w not in fixedv:
                        at[w] = rng.choice(near)
                        todo.append(w)
        k = rng.choice((2, 4, 6, 9))
        skip = rng.choice([0, 0, .1])
        for v in vs:
            if v in fixedv or rng.random() < skip:
                continue
            p["restrict"].append((v, sorted(set(rand_chain(rng, ref.tadj, free, rng.randint(1, k), at[v])) | set(ini.get(v, ())))))
    elif x < .5 and free:
        ini = dict(p["initial"])
        skip = rng.choice([0, .1, .6])
        for v in vs:
            if v in fixedv or rng.random() < skip:
                continue
            k = rng.randint(max(1, len(free) // 2), len(free))
            dom = set(rand_chain(rng, ref.tadj, free, k)) - used | set(ini.get(v, ()))
            if dom:
                p["restrict"].append((v, sorted(dom)))


def gen_odd_hints(rng, p):
    """hints as careless callers give them: chains that overlap, fall apart, repeat nodes, use nodes of fixed chains,
    cover everything, or belong to source nodes that are fixed"""
    nS = 1 + max(max(e) for e in p["S"])
    nT = 1 + max(max(e) for e in p["T"])
    comp = components(nT, p["T"])
    if len(comp) > 1 and len(comp[0]) == len(comp[1]):
        return
    big = comp[0]
    if len(big) < 3:
        return
    tadj = [set() for _ in range(nT)]
    for a, b in p["T"]:
        tadj[a].add(b)
        tadj[b].add(a)
    some = lambda k: [rng.choice(big) for _ in range(rng.randint(1, k))]
    fixed = dict(p["fixed"])
    if rng.random() < .4:
        for v in rng.sample(range(nS), rng.randint(1, nS if rng.random() < .15 else max(1, nS // 2))):
            if len(set(fixed) | {v}) == nS:
                break
            fixed[v] = some(4) if rng.random() < .6 or not fixed else list(rng.choice(list(fixed.values())))
        if len({q for c in fixed.values() for q in c}) > len(big) - 2 and rng.random() < .9:
            fixed = dict(p["fixed"])
    p["fixed"] = sorted(fixed.items())
    ini = dict(p["initial"])
    x = rng.random()
    if x < .45:
        for v in rng.sample(range(nS), rng.randint(1, nS)):
            ini[v] = some(4)
    elif x < .9:
        fq = {q for c in fixed.values() for q in c}
        free = [q for q in big if q not in fq] or big
        rng.shuffle(free)
        it = iter(free)
        chains = {v: list(fixed[v]) if v in fixed else [q for q in (next(it, None) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))) if q is not None] or [rng.choice(free)] for v in range(nS)}
        used = {q for c in chains.values() for q in c}
        edges = [(a, b) for a, b in p["S"] if a != b]
        rng.shuffle(edges)
        for a, b in edges:
            if rng.random() < .5:
                a, b = b, a
            if a in fixed:
                a, b = b, a
            if a in fixed or any(y in tadj[z] for z in chains[a] for y in chains[b]):
                continue
            c = [y for z in chains[b] for y in sorted(tadj[z]) if y not in fq]
            n = [y for y in c if y not in used]
            if n or c:
                q = rng.choice(n or c)
                chains[a].append(q)
                used.add(q)
        ini = {v: c for v, c in chains.items() if v not in fixed or rng.random() < .2}
        p["skip"] = int(rng.random() < .8)
    p["initial"] = sorted(ini.items())
    if rng.random() < .5:
        p["overlap"] = 1
    if p["restrict"] and rng.random() < .5:
        p["restrict"] = [(v, sorted(set(d) | set(some(3)))) for v, d in p["restrict"]]


def gen_sched(rng):
    m = rng.choice(["random", "random", "random", "pct", "pct", "sync", "sync", "rr", "starve"])
    return {"mode": m, "sseed": rng.getrandbits(48),
            "param": {"random": rng.randint(2, 13), "pct": rng.randint(4, 15), "sync": rng.randint(0, 6), "rr": rng.randint(1, 11), "starve": rng.randint(5, 14)}[m],
            "stall": rng.choice([0, 0, 30, 200]), "spurious": rng.choice([0, 0, 20, 200])}


# ------------------------------------------------------------------ shrinking helpers
def shrink_problem(p, with_threads=True):
    """smaller problems; node numbering stays contiguous because isolated nodes keep a self loop"""
    def drop_node(edges, n, v):
        ren = lambda x: x - (x > v)
        return [(ren(a), ren(b)) for a, b in edges if a != v and b != v]
    nS = 1 + max(max(e) for e in p["S"])
    nT = 1 + max(max(e) for e in p["T"])
    for key in ("fixed", "initial", "restrict"):
        for i in range(len(p[key])):
            q = dict(p); q[key] = p[key][:i] + p[key][i + 1:]
            yield q
    hintv = {v for k in ("fixed", "initial", "restrict") for v, _ in p[k]}
    hintq = {x for k in ("fixed", "initial", "restrict") for _, c in p[k] for x in c}

    def fill(e, n):
        used = {x for ab in e for x in ab}
        return e + [(v, v) for v in range(n) if v not in used]
    if nT > 3:
        for v in reversed(range(nT)):
            if v in hintq:
                continue
            q = dict(p); q["T"] = fill(drop_node(p["T"], nT, v), nT - 1)
            for k in ("fixed", "initial", "restrict"):
                q[k] = [(a, [x - (x > v) for x in c]) for a, c in p[k]]
            yield q
    if nS > 2:
        for v in reversed(range(nS)):
            if v in hintv:
                continue
            q = dict(p); q["S"] = fill(drop_node(p["S"], nS, v), nS - 1)
            for k in ("fixed", "initial", "restrict"):
                q[k] = [(a - (a > v), c) for a, c in p[k]]
            yield q
    for key, n in (("S", nS), ("T", nT)):
        for i in range(len(p[key])):
            e = p[key][:i] + p[key][i + 1:]
            e = fill(e, n)
            if len(e) < len(p[key]) and e:
                q = dict(p); q[key] = e
                yield q
    for key, vals in (("tries", [1]), ("mni", [1, 2]), ("ir", [1, 2, 8]), ("clp", [0, 1]), ("verbose", [0]), ("max_beta", [1e300]), ("max_fill", [1 << 30]),
                      ("seed", [1, 2, 3]), ("overlap", [0]), ("interactive", [0])) + ((("threads", [1, 2]),) if with_threads else ()):
        for x in vals:
            if p[key] != x and (key not in ("tries", "mni", "ir", "clp", "threads") or x < p[key]):
                q = dict(p); q[key] = x
                yield q


def shrink_list(l):
    n = len(l)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield l[:i] + l[i + k:]
        k //= 2


class EngineProp(Prop):
    real = ["include/find_embedding/*.hpp (instrumented build of the current tree)", "libstdc++ futures, threads, mutexes and call_once on top of the simulated primitives"]
    stubs = ["scheduler (baton, seeded)", "pthread/futex primitives", "clocks", "global allocator (arena with garbage fill and validity map)", "LocalInteraction (interrupt source and message sink)"]
    assumptions = ["problems are small (at most ~12 source and ~40 target nodes)", "interleavings are sampled at memory accesses instrumented by the compiler; weak-memory effects of data-race-free code are not modelled",
                   "the engine is compiled by clang -O1 for simulation, the shipped module by the default compiler"]

    def build(self):
        self.exe = build_engine()

    def context(self):
        return Server(self.exe)

    def close(self, ctx):
        ctx.close()


def status_violation(r, what):
    if r["status"] == "ok":
        return None
    return Violation(r["status"], "%s: %s" % (what, r["detail"]))
