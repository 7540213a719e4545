"""Workloads on the clique cache of minorminer.busclique inside the simulated machine (simfs)."""
import gc, itertools, os, pickle, random, signal, sys, traceback
from core import *
import simfs
import pybuild

CACHE = simfs.ROOT + "/data/busclique"
POOL = [
    ("chimera", (1, 1, 4), "int", (), ()),
    ("chimera", (2, 2, 2), "int", (), ()),
    ("chimera", (2, 2, 2), "coordinate", (3,), ()),
    ("chimera", (3, 3, 2), "int", (2,), ()),      # the next two have the same cache file name as this one's partner
    ("chimera", (3, 3, 2), "int", (26,), ()),
    ("chimera", (2, 2, 4), "int", (1, 17), ()),
    ("chimera", (3, 3, 2), "int", (3,), ()),
    ("chimera", (3, 3, 2), "int", (27,), ()),
    ("pegasus", (2,), "int", (), ()),
    ("pegasus", (2,), "coordinate", (5,), ()),
    ("pegasus", (2,), "nice", (), ()),
    ("zephyr", (1, 2), "int", (), ()),
    ("zephyr", (1, 2), "coordinate", (1,), ()),
    ("zephyr", (1, 4), "int", (0, 7), ()),
    ("chimera", (2, 1, 3), "int", (), (0,)),
    ("chimera", (1, 1, 8), "int", (), ()),
    ("zephyr", (2, 1), "int", (3,), ()),
    ("chimera", (2, 2, 2), "coordinate", (), ()),      # the same graph as the second one under other labels
    ("pegasus", (2,), "int", (), (22, 32, 73, 111, 113, 116, 127, 132)),     # its cliques depend on the seed
]
TWINS = {17: 1}
COLLIDE = [(3, 4), (6, 7)]
FILL = (0, 50, 90, 96, 98, 99, 100, 104)
FILLG, FILLS = 11, 100000
NPAY = 6


class CacheCtx:
    """one worker: the loaded package, graphs, reference answers and prepared file systems"""

    def __init__(self):
        self.dir = pybuild.build_package()
        os.environ["XDG_DATA_HOME"] = simfs.ROOT + "/data"
        for k in ("VIRTUAL_ENV",):
            os.environ.pop(k, None)
        sys.path[:0] = [self.dir]
        if pybuild.SITE not in sys.path:
            sys.path.append(pybuild.SITE)
        simfs.install()
        sys.unraisablehook = lambda a: None
        import networkx, numpy, dwave.graphs, fasteners, homebase, logging, gzip, json, pathlib
        from networkx.algorithms import bipartite
        self.nx, self.dg = networkx, dwave.graphs
        logging.disable(logging.CRITICAL)
        import minorminer, minorminer.busclique
        self.mods, self.locks = [], []
        for i in range(pybuild.NPROCMOD):
            p = os.path.join(self.dir, "proc%d" % i, "minorminer")
            simfs.LOCKS = []
            self.mods.append(simfs.load_module(os.path.join(p, os.listdir(p)[0])))
            self.locks.append(simfs.LOCKS)
        self.memo = {}
        self.graphs = [self.make(*x) for x in POOL]
        self.images = {}
        self.broken = None
        try:
            self.prepare()
        except Exception as e:
            self.broken = "%s: %s" % (type(e).__name__, e)

    def make(self, fam, args, labels, nodes, edges):
        gen = {"chimera": self.dg.chimera_graph, "pegasus": self.dg.pegasus_graph, "zephyr": self.dg.zephyr_graph}[fam]
        kw = {} if labels == "int" else {"nice_coordinates": True} if labels == "nice" else {"coordinates": True}
        g = gen(*args, **kw)
        ns, es = sorted(g.nodes()), sorted(tuple(sorted(e)) for e in g.edges())
        g.remove_nodes_from([ns[i] for i in nodes])
        g.remove_edges_from([es[i] for i in edges])
        return g

    def prepare(self):
        """file systems with n earlier entries in each cache directory, made by the real code"""
        mod = self.mods[0]
        fs = simfs.FS()
        g = self.graphs[FILLG]
        self.images[-1] = pickle.dumps(self.dump(fs))         # not even the directories exist
        with simfs.direct(fs, mod):
            mod.busgraph_cache(self.graphs[0], seed=1).find_clique_embedding(2)
            mod.busgraph_cache(self.graphs[0], seed=1).find_biclique_embedding(1, 2)
            for i in range(max(FILL) + 1):
                if i in FILL:
                    self.images[i] = pickle.dumps(self.dump(fs))
                mod.busgraph_cache(g, seed=FILLS + i).find_clique_embedding(2)
                mod.busgraph_cache(g, seed=FILLS + i).find_biclique_embedding(1, 2)

    def dump(self, fs):
        out = {}

        def rec(p, n):
            for k, i in n.kids.items():
                if i.kind == "d":
                    out[p + "/" + k] = None
                    rec(p + "/" + k, i)
                else:
                    out[p + "/" + k] = bytes(i.data)
        rec(simfs.ROOT, fs.root)
        return out

    def image(self, n):
        fs = simfs.FS()
        for p, b in pickle.loads(self.images[n]).items():
            if b is None:
                d, x = fs.parent(p)
                d.kids[x] = simfs.Inode(fs, "d")
            else:
                d, x = fs.parent(p)
                i = d.kids[x] = simfs.Inode(fs, "f")
                i.data = bytearray(b)
        fs.sync_all()
        return fs

    # ---------------- reference answers
    def ident(self, g, s):
        """what should identify the cache entry of a graph and seed: the graph without its labels, and the seed"""
        if POOL[g][0] == "pegasus" and not POOL[g][4]:
            s = 0       # the seed of a pegasus graph only matters to cliques when internal couplers are missing
        return TWINS.get(g, g), s

    def base(self, g, s):
        """cliques {size: chains} of an isolated computation, integer labels"""
        k = ("base", g, s)
        if k not in self.memo:
            with simfs.direct(simfs.FS(), self.mods[0]):
                c = self.mods[0].busgraph_cache(self.graphs[g], seed=s).get_clique_cache(sparse=True, compress=False)
            self.memo[k] = {n: [tuple(x) for x in e] for n, e in c.items()}
        return self.memo[k]

    def to_label(self, g):
        """function from integer labels to the labels of graph g"""
        k = ("lab", g)
        if k not in self.memo:
            fam, args, labels = POOL[g][:3]
            if labels == "int":
                f = lambda q: q
            elif fam == "chimera":
                f = self.dg.chimera_coordinates(*args).linear_to_chimera
            elif fam == "zephyr":
                f = self.dg.zephyr_coordinates(*args).linear_to_zephyr
            else:
                c = self.dg.pegasus_coordinates(*args)
                f = c.linear_to_nice if labels == "nice" else c.linear_to_pegasus
            self.memo[k] = f
        return self.memo[k]

    def labelled(self, g, chains):
        f = self.to_label(g)
        return [tuple(f(q) for q in c) for c in chains]

    def nodes(self, g):
        """integer labels of the nodes, in order"""
        k = ("nodes", g)
        if k not in self.memo:
            G = self.graphs[g]
            f = self.to_label(g)
            total = {"chimera": lambda a: 2 * a[0] * a[1] * a[2], "pegasus": lambda a: 24 * a[0] * (a[0] - 1), "zephyr": lambda a: 4 * a[1] * a[0] * (2 * a[0] + 1)}[POOL[g][0]](POOL[g][1])
            out = []
            for q in range(total):
                try:
                    x = f(q)
                except Exception:
                    continue
                if x in G:
                    out.append(q)
            self.memo[k] = out
        return self.memo[k]

    def adj(self, g):
        k = ("adj", g)
        if k not in self.memo:
            f, G, ns = self.to_label(g), self.graphs[g], self.nodes(g)
            inv = {f(q): q for q in ns}
            self.memo[k] = {q: sorted(inv[y] for y in G[f(q)]) for q in ns}
        return self.memo[k]

    def payload(self, g, k):
        """the k-th distinguishable content for graph g: {size: chains}, integer labels"""
        key = ("pay", g, k)
        if key not in self.memo:
            ns, adj = self.nodes(g), self.adj(g)
            es = [(u, v) for u in ns for v in adj[u] if u < v]
            b = self.base(g, 0)
            top = max(b)
            out = {1: [(ns[(k * 7 + 1) % len(ns)],)], 2: [(x,) for x in es[(k * 5 + 2) % len(es)]]}
            if top > 2:
                c = list(b[top])
                out[top] = c[k % len(c):] + c[:k % len(c)]
                if k % 2 and len({len(x) for x in c}) == 1:      # chain orders cannot tell them apart: lengthen one
                    out[top] = self.grow(g, out[top], random.Random(k), 1)
            self.memo[key] = out
        return self.memo[key]

    def grow(self, g, chains, rng, n):
        """a valid embedding made worse: n free nodes added to chains"""
        adj = self.adj(g)
        ch = [list(c) for c in chains]
        used = {q for c in ch for q in c}
        for _ in range(n):
            o = [(i, q) for i, c in enumerate(ch) for x in c for q in adj[x] if q not in used]
            if not o:
                break
            i, q = rng.choice(o)
            ch[i].append(q)
            used.add(q)
        return [tuple(c) for c in ch]

    def poor(self, g, k):
        """stored cliques of low quality, {size: chains}"""
        key = ("poor", g, k)
        if key not in self.memo:
            rng = random.Random("poor:%d:%d" % (g, k))
            b = self.base(g, 0)
            top = max(b)
            if k % 3 == 1:
                top = max(2, top - 1 - k // 3 % 3)
            out = {}
            for n in range(1, top + 1):
                if n in b and b[n] and (k % 3 != 2 or n != 2):
                    out[n] = self.grow(g, b[n], rng, rng.randint(0, 5))
            self.memo[key] = out
        return self.memo[key]

    def candidate(self, g, k):
        """the k-th embedding to insert, integer labels"""
        key = ("cand", g, k)
        if key not in self.memo:
            rng = random.Random("cand:%d:%d" % (g, k))
            b = self.base(g, rng.randint(0, 3))
            n = rng.choice([x for x in b if x > 0])
            ch = list(b[n])
            rng.shuffle(ch)
            ch = ch[:rng.choice((n, n, max(1, n - 1)))]
            self.memo[key] = self.grow(g, ch, rng, rng.choice((0, 0, 0, 1, 2, 4)))
        return self.memo[key]

    def content(self, g, s, state):
        """cliques {size: chains} of a state: None computed, k payload, ("direct", h, c, state) a candidate stored over another state, ("of", h, t, state) what was exported from another entry"""
        if state is None:
            return self.base(g, s)
        if isinstance(state, tuple) and state[0] == "direct":
            e = sorted(self.candidate(state[1], state[2]), key=len)
            return {**self.content(g, s, state[3]), len(e): e}
        if isinstance(state, tuple):
            return self.content(state[1], state[2], state[3])
        return self.payload(g, state)

    def expect(self, g, s, state, q):
        """answer of query q in a state, in comparable form"""
        key = ("x", g, s, state, q)
        if key not in self.memo:
            if state is None or q[0] in BICLIQUE:
                try:
                    with simfs.direct(simfs.FS(), self.mods[0]):
                        mod = self.mods[0]
                        v = run_query(mod, mod.busgraph_cache(self.graphs[g], seed=s), ("clique", q[1]) if q[0] == "module" else q)
                        self.memo[key] = v if state is None else view(q, v)
                except Exception as e:
                    self.memo[key] = ("raises", type(e).__name__, str(e)[:200])
            else:
                c = self.content(g, s, state)
                lab = lambda e: tuple(sorted(tuple(sorted(x)) for x in self.labelled(g, e)))
                if q[0] in ("clique", "module"):
                    v = lab(c[q[1]]) if c.get(q[1]) else ()
                elif q[0] == "largest":
                    v = lab(c[max(c)]) if c else ()
                elif q[0] == "get":
                    v = tuple(sorted((n, tuple(sorted(tuple(sorted(x)) for x in e))) for n, e in c.items() if n))
                elif q[0] == "bylen":
                    v = self.bylen(c, q[1])
                self.memo[key] = v
        return self.memo[key]

    def bylen(self, c, l):
        """acceptable sizes of the largest clique with chains up to length l in stored content c"""
        c = {n: e for n, e in c.items() if e}
        top = max((max(map(len, e)) for e in c.values()), default=0)
        if l <= 0 or not c:
            return {0}
        if l > top:
            return {0, max(c)}
        return {max((n for n, e in c.items() if max(map(len, e)) <= l), default=0), max(sum(1 for x in e if len(x) <= l) for e in c.values())}

    def states_of(self, g, s, states, q, value):
        """which of the states explain the answer"""
        out = set()
        for st in states:
            x = self.expect(g, s, st, q)
            if st is None:
                ok = x == value
            elif q[0] == "bylen":
                ok = len(value) in x or "direct" in str(st)      # the documentation leaves open what a direct insertion does to this query
            else:
                ok = x == view(q, value)
            if ok:
                out.add(st)
        return out

    def valid(self, g, q, ans):
        """independent validity of an answer; None or what is wrong"""
        key = ("v", g, q, ans)
        if key not in self.memo:
            self.memo[key] = self._valid(g, q, ans)
        return self.memo[key]

    def _valid(self, g, q, ans):
        G = self.graphs[g]
        if q[0] == "get":
            for n, e in ans:
                if len(e) != n:
                    return "%d chains are stored for size %d" % (len(e), n)
                w = self._valid(g, ("clique", n), norm(dict(enumerate(self.labelled(g, e)))))
                if w:
                    return w
            return None
        emb = dict(ans)
        if not emb:
            return None
        if q[0] in ("clique", "module", "largest", "bylen"):
            if q[0] in ("clique", "module") and len(emb) != q[1]:
                return "%d chains for a clique of %d" % (len(emb), q[1])
            if q[0] == "bylen" and any(len(c) > q[1] for c in emb.values()):
                return "a chain longer than %d" % q[1]
            pairs = itertools.combinations(emb, 2)
        else:
            a, b = (q[1], q[2]) if q[0] == "bic" else (len(emb) // 2,) * 2
            if len(emb) != a + b:
                return "%d chains for a biclique of %d and %d" % (len(emb), a, b)
            if a and b:
                pairs = itertools.product(range(a), range(a, a + b))
            else:      # no edges: nodes alone are returned
                return None
        used = set()
        for c in emb.values():
            if not c or not all(x in G for x in c) or len(set(c)) != len(c) or used & set(c):
                return "chains are empty, overlap or leave the graph"
            used |= set(c)
            if not self.nx.is_connected(G.subgraph(c)):
                return "a chain is not connected"
        for u, v in pairs:
            if not any(G.has_edge(x, y) for x in emb[u] for y in emb[v]):
                return "chains %r and %r are not adjacent" % (u, v)
        return None


def view(q, value):
    """an answer reduced to what is promised about stored content: which chains, not their order"""
    if q[0] == "get":
        return tuple(sorted((n, tuple(sorted(tuple(sorted(x)) for x in e))) for n, e in value if n))
    return tuple(sorted(tuple(sorted(c)) for _, c in value))


def norm(x):
    """embedding -> comparable value"""
    return tuple(sorted((k, tuple(v)) for k, v in x.items()))


def run_query(mod, o, q):
    if q[0] == "clique":
        return norm(o.find_clique_embedding(q[1]))
    if q[0] == "largest":
        return norm(o.largest_clique())
    if q[0] == "bylen":
        return norm(o.largest_clique_by_chainlength(q[1]))
    if q[0] == "bic":
        return norm(o.find_biclique_embedding(q[1], q[2]))
    if q[0] == "balanced":
        return norm(o.largest_balanced_biclique())
    if q[0] == "get":
        def form(sparse):
            c = o.get_clique_cache(sparse=sparse, compress=False)
            return tuple(sorted((n, tuple(tuple(x) for x in e)) for n, e in (c.items() if sparse else enumerate(c)) if n and len(e)))
        d, l = form(True), form(False)
        return d if l == d or form(True) != d else l      # both forms say the same (unless another thread was busy)
    raise CheckError("unknown query %r" % (q,))


BICLIQUE = ("bic", "balanced")
QUALITY = {
    None: None,
    "total": lambda e: -sum(map(len, e)),
    "default": lambda e: (-max(map(len, e)), sum(len(c) == max(map(len, e)) for c in e)),
}


def do_op(ctx, mod, op, objs, pobjs):
    """one operation; returns its value"""
    k = op["k"]
    g = ctx.graphs[op["g"]]
    s = op.get("s", 0)

    def obj():
        o = op.get("o")
        if o is None:
            return mod.busgraph_cache(g, seed=s)
        tab = pobjs if op.get("shared") else objs
        key = (o, op["g"], s)
        if key not in tab:
            tab[key] = mod.busgraph_cache(g, seed=s)
        return tab[key]

    if k == "q":
        q = tuple(op["q"])
        if q[0] == "module":
            return norm(mod.find_clique_embedding(q[1], g, seed=s)) if s else norm(mod.find_clique_embedding(q[1], g))
        return run_query(mod, obj(), q)
    if k == "times":         # the same query for a range of seeds, each a different entry
        for j in range(op["n"]):
            run_query(mod, mod.busgraph_cache(g, seed=s + j), tuple(op["q"]))
        return None
    if k in ("update", "poor"):
        c = ctx.payload(op["g"], op["pay"]) if k == "update" else ctx.poor(op["g"], op["pay"])
        c = {n: list(x) for n, x in c.items()}
        how = op.get("as")
        if how == "list":
            c = [c.get(n, ()) for n in range(max(c) + 1)]
        elif how == "bytes":
            import gzip, json
            c = gzip.compress(json.dumps(c).encode("utf8"))
        obj().update_clique_cache(c, write_to_disk=not op.get("mem"))
        return None
    if k == "pause":
        simfs.MACHINE.sleep(op["d"])
        return None
    if k == "direct":        # replaces the clique of one size
        e = dict(enumerate(ctx.labelled(op["g"], ctx.candidate(op["g"], op["cand"]))))
        obj().insert_clique_embedding(e, write_to_disk=not op.get("mem"), direct=True)
        return None
    if k == "insert":
        e = dict(enumerate(ctx.labelled(op["g"], ctx.candidate(op["g"], op["cand"]))))
        obj().insert_clique_embedding(e, quality_function=QUALITY[op.get("qf")])
        return None
    if k == "merge":
        o = obj()
        src = mod.busgraph_cache(g, seed=op["from"])
        v = run_query(mod, src, ("get",))
        o.merge_clique_cache(src, quality_function=QUALITY[op.get("qf")])
        return v
    if k == "mine":
        mod.mine_clique_embeddings(g, quality_function=QUALITY[op.get("qf")], regularize=bool(op.get("reg")), num_seeds=op.get("seeds", 1),
                                   mask_bound=8, heuristic_bound=op.get("hb", 3), heuristic_args=dict(tries=1, random_seed=op.get("rs", 1), chainlength_patience=1, max_no_improvement=1),
                                   heuristic_runs=1)
        return run_query(mod, mod.busgraph_cache(g, seed=s), ("get",)) if op.get("reread") else None
    if k == "transfer":      # export from one cache object, import into another, as between installations
        o = mod.busgraph_cache(g, seed=s)
        blob = o.get_clique_cache(sparse=op["sparse"], compress=op["compress"])
        o = mod.busgraph_cache(g, seed=op["to"])
        if op.get("warm"):        # an object that was used before
            o.largest_clique()
        o.update_clique_cache(blob)
        return None
    raise CheckError("unknown operation %r" % k)


def execute(ctx, case):
    """runs in a forked child; returns a picklable record of everything that happened.
    case: fs (image), prefix (operations done before, in order), rounds [{procs, plan}] one after the other, after [[operations] of one fresh process each]"""
    simfs.MACHINE = None
    simfs.CUR = None
    fs = ctx.image(case["fs"])
    used = [0]

    def module():
        used[0] += 1
        i = used[0] % len(ctx.mods)
        for l in ctx.locks[i]:
            l._at_fork_reinit()
        return ctx.mods[i]
    rec = {"ops": [], "phases": [], "fired": {}, "nops": 0, "sim": 0.0, "switches": 0, "kinds": {}}
    random.seed("prefix")
    if case.get("prefix"):
        with simfs.direct(fs, ctx.mods[0]):
            for op in case["prefix"]:
                do_op(ctx, ctx.mods[0], op, {}, {})
        fs.sync_all()

    def phase(procs, plan, tag, base):
        m = simfs.Machine(fs, plan)
        simfs.MACHINE = m
        off = rec["nops"]
        random.seed("run:%s" % plan.get("sseed", 0))
        for pi, p in enumerate(procs):
            pr = simfs.Proc(base + pi, module())
            pobjs = {}
            for ti, ops in enumerate(p["threads"]):
                def fn(t, ops=ops, pr=pr, ti=ti, p=p, pobjs=pobjs):
                    objs = {}
                    if p.get("start"):
                        m.sleep(p["start"])
                    for oi, op in enumerate(ops):
                        r = {"phase": tag, "proc": pr.pid, "thread": ti, "i": oi, "op": op, "start": off + m.nops, "end": None, "t0": m.now, "status": "lost"}
                        rec["ops"].append(r)
                        n0 = len(t.faults)
                        w0 = m.now
                        try:
                            v = do_op(ctx, pr.module, op, objs, pobjs)
                            r["value"] = v
                            r["status"] = "ok"
                        except CheckError:
                            raise
                        except Exception as e:
                            r["status"] = "exc"
                            r["exc"] = type(e).__name__
                            r["msg"] = str(e)[:200]
                            r["oserr"] = isinstance(e, OSError)
                            r["lockerr"] = type(e) is threading_error
                            r["where"] = [f.name.split(".")[-1] for f in traceback.extract_tb(e.__traceback__)][-6:]
                            e = None
                        r["end"] = off + m.nops
                        r["t1"] = m.now
                        r["faults"] = t.faults[n0:]
                m.spawn(pr, fn)
        why = m.run()
        rec["nops"] += m.nops + 1
        rec["sim"] += m.now
        rec["switches"] += m.switches
        dead = sorted({t.proc.pid for t in m.tasks if t.proc.dead})
        ph = {"tag": tag, "why": why, "nops": m.nops, "end": rec["nops"], "hash": m.hash, "trace": m.trace, "crashed": dead,
              "tasks": [(t.proc.pid, t.nops) for t in m.tasks], "pnops": {t.proc.pid: t.proc.nops for t in m.tasks}, "broken": m.broken}
        rec["phases"].append(ph)
        for k, v in m.fired.items():
            rec["fired"][k] = rec["fired"].get(k, 0) + v
        for k, v in m.kinds.items():
            rec["kinds"][k] = rec["kinds"].get(k, 0) + v
        if why is None:
            held = []

            def locks(p, n):
                if n.plock or n.flocks:
                    held.append(p)
                for k, c in (n.kids or {}).items():
                    locks(p + "/" + k, c)
            locks("", fs.root)
            ph["held"] = held
            ph["files"] = {d: sorted(fs.files(x) or ()) for d, x in listing(fs)}
        return why

    for ri, rd in enumerate(case["rounds"]):
        why = phase(rd["procs"], rd["plan"], "r%d" % ri, 20 * ri)
        if why == "power":
            prng = random.Random("power:%s" % rd["plan"].get("pseed", 0))
            for k, v in fs.power_loss(prng, rd["plan"].get("prefix", True)).items():
                rec["fired"]["power_" + k] = rec["fired"].get("power_" + k, 0) + v
        elif why is not None:
            return rec
    for j, ops in enumerate(case.get("after", ())):
        if phase([{"threads": [ops]}], dict(mode="seq", cap=400000, tcap=1e6), "after", 1000 + j) is not None:
            break
    return rec


import threading
threading_error = threading.ThreadError


def listing(fs):
    out = []

    def rec(p, n):
        for k, c in n.kids.items():
            if c.kind == "d":
                out.append((p + "/" + k, simfs.ROOT + p + "/" + k))
                rec(p + "/" + k, c)
    rec("", fs.root)
    return out


def forked(fn, limit=60):
    """runs fn in a forked child: ("ok", value), ("signal", n), ("timeout",), ("error", text)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            gc.disable()
            try:
                out = ("ok", fn())
            except BaseException:
                out = ("error", traceback.format_exc())
            simfs.CUR = simfs.MACHINE = None
            b = pickle.dumps(out)
            mv = memoryview(b)
            while mv:
                n = os.write(w, mv[:65536])
                mv = mv[n:]
        except BaseException:
            code = 9
        os._exit(code)
    os.close(w)
    import select
    buf = b""
    end = time.monotonic() + limit
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return ("timeout",)
            if not select.select([r], [], [], left)[0]:
                continue
            x = os.read(r, 1 << 16)
            if not x:
                break
            buf += x
    finally:
        os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return ("signal", os.WTERMSIG(st))
    if not buf:
        return ("error", "no result, status %d" % st)
    return pickle.loads(buf)
