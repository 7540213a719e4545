"""Layout-aware embedding and the searches for many embeddings, under simulation (see pyrun.py). The layout and
placement functions and the embedder are the caller's: here they take the simulated time they are told to take.
`minorminer.subgraph`, whose solver is absent, is replaced by a backtracking search of our own."""
import sys, time, types


def find_subgraph(S, T, budget=20000, **kw):
    """a one-to-one mapping of S into T that keeps edges, or {}; depends on the order of nodes"""
    sn = sorted(S.nodes(), key=lambda v: -S.degree(v))
    order, seen = [], set()
    while len(order) < len(sn):                    # connected order
        nxt = next((v for v in sn if v not in seen and any(u in seen for u in S.adj[v])), None)
        if nxt is None:
            nxt = next(v for v in sn if v not in seen)
        order.append(nxt)
        seen.add(nxt)
    emb, used, left = {}, set(), [budget]

    def go(i):
        if i == len(order):
            return True
        left[0] -= 1
        if left[0] < 0:
            return False
        v = order[i]
        placed = [emb[u] for u in S.adj[v] if u in emb and u != v]
        for q in (T.adj[placed[0]] if placed else T.nodes()):
            if q in used or T.degree(q) < S.degree(v) or any(x not in T.adj[q] for x in placed):
                continue
            emb[v] = q
            used.add(q)
            if go(i + 1):
                return True
            del emb[v]
            used.discard(q)
        return False
    return dict(emb) if go(0) else {}


def load():
    m = types.ModuleType("minorminer.subgraph")
    m.find_subgraph = find_subgraph
    sys.modules["minorminer.subgraph"] = m
    import minorminer
    minorminer.subgraph = m
    import minorminer.layout, minorminer.utils.parallel_embeddings
    global REAL_FILTER, REAL_MAPPINGS
    REAL_MAPPINGS = {}
    try:
        import dwave.graphs as g
        REAL_MAPPINGS = {k: getattr(g, k) for k in ("chimera_sublattice_mappings", "pegasus_sublattice_mappings", "zephyr_sublattice_mappings") if hasattr(g, k)}
    except ImportError:
        pass
    REAL_FILTER = getattr(minorminer.utils.parallel_embeddings, "embedding_feasibility_filter", None)


class Failed(Exception):
    pass


# ------------------------------------------------------------------ layout-aware embedding
def layout(ns, o):
    import minorminer, networkx
    import minorminer.layout as mml
    from pyrun import L, problem, answer
    nm, c = ns["nm"], o["lay"]
    S, T, kw = problem(nm, o["p"])
    if c.get("bus"):
        from pyrun import busgraph
        T = busgraph(None, c["bus"])
        nm.tl = sorted(T.nodes())
        nm.ti = {x: i for i, x in enumerate(nm.tl)}
    log = {"spent": 0, "calls": []}

    def take(i):
        """phase i takes its time, the first time it runs"""
        if i in log["calls"]:
            return
        log["calls"].append(i)
        d = c["dur"][i]
        L.sim_advance(d)
        log["spent"] += d
        if c.get("raise") == i:
            raise Failed(i)

    def coords(G, i):
        ns_ = sorted(G.nodes(), key=repr)
        return {v: (float((3 * j + i) % 7), float((5 * j + 2 * i) % 11)) for j, v in enumerate(ns_)}

    def fn(i, real):
        def f(G, **k):
            take(i)
            return getattr(mml, real)(G, **k) if real != "own" else coords(G, i)
        return f
    lay = []
    for i, G in ((0, S), (1, T)):
        how = c["how"][i]
        if how == "dict":
            lay.append(coords(G, i))
        elif how == "obj":
            lay.append(mml.Layout(G, coords(G, i)))
        elif how == "none":
            lay.append(None)
        else:
            lay.append(fn(i, how))

    def place(SL, TL, **k):
        take(2)
        if c["how"][2] == "own":
            r = nm.chains(c["place"])
        else:
            r = getattr(mml, c["how"][2])(SL, TL, **k)
        log["place"] = r
        return r
    pl = nm.chains(c["place"]) if c["how"][2] == "dict" else place
    if c["how"][2] == "dict":
        log["place"] = pl
    kw.update(layout=lay[0] if c.get("single") else tuple(lay), placement=pl, mm_hint_type=c["hint"])
    if c.get("rl"):
        kw["return_layouts"] = True
    if "timeout" in c:
        import fractions, numpy
        kw["timeout"] = {"f": float, "i": int, "np": numpy.float64}[c.get("tt", "f")](c["timeout"])

    def run():
        if o.get("direct"):
            for k in ("layout", "placement", "mm_hint_type", "return_layouts"):
                kw.pop(k, None)
            p = nm.chains([[v, q] for v, q in o["direct"]])
            kw.update({"initial_chains": p} if c["hint"] == "initial_chains" else {"suspend_chains": {v: [x] for v, x in p.items()}})
            return minorminer.find_embedding(S, T, **kw)
        return mml.find_embedding(S, T, **kw)

    def read(v):
        if c.get("rl") and not o.get("direct"):
            if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple) and len(v[1]) == 2 and all(isinstance(x, mml.Layout) for x in v[1])):
                return {"form": "return_layouts does not return layouts"}
            v = v[0]
        return answer(nm, v)

    def extra(r):
        r["spent"], r["calls"] = log["spent"], log["calls"]
        if "place" in log:
            r["place"] = [[nm.si[v], [nm.ti[q] for q in q_]] for v, q_ in log["place"].items()]
        if c.get("bus"):
            r["T"] = [[nm.ti[a], nm.ti[b]] for a, b in T.edges()]
    return run, read, extra


# ------------------------------------------------------------------ many embeddings
def source(spec, lab):
    import networkx
    n, edges = spec
    f = {"int": lambda i: i, "str": lambda i: "s%d" % i, "tuple": lambda i: ("s", i)}[lab]
    g = networkx.Graph()
    g.add_nodes_from(f(i) for i in range(n))
    g.add_edges_from((f(a), f(b)) for a, b in edges)
    return g


def snap(g):
    # no repr: after a failed allocation in one, the interpreter's repr says (...) for some tuples
    return None if g is None else ([(n, dict(d)) for n, d in g.nodes(data=True)], {frozenset((a, b)): dict(d) for a, b, d in g.edges(data=True)}, dict(g.graph))


def many(ns, o):
    import minorminer, networkx
    import minorminer.utils.parallel_embeddings as pe
    from pyrun import L, busgraph
    S = source(o["S"], o.get("ls", "int"))
    if "fam" in o["T"]:
        T = busgraph(None, o["T"])
        if o["T"].get("plain"):
            g = networkx.Graph()
            g.add_nodes_from(T.nodes())
            g.add_edges_from(T.edges())
            T = g
    else:
        T = source(o["T"]["rand"], o["T"].get("lab", "int"))
    given = None if o["T"].get("none") else T
    kw = {k: v for k, v in o["kw"].items() if v is not None}
    if "timeout" in kw:
        kw["timeout"] = float(kw["timeout"])
    if o.get("unbounded"):
        kw["max_num_emb"] = None
    tile = None
    if o.get("tile"):
        tile = busgraph(None, o["tile"]) if "fam" in o["tile"] else source(o["tile"]["rand"], "int")
        if o["tile"].get("same"):
            S = tile
        kw["tile"] = tile
    if o.get("tile_emb"):
        e = find_subgraph(S, tile)
        if e:
            kw["tile_embedding"] = {k: (v,) for k, v in e.items()} if kw.get("one_to_iterable") else e
    if o.get("ekw") is not None:
        kw["embedder_kwargs"] = dict(o["ekw"])
    calls, start = [], [0]

    def embedder(s, t, **k):
        i = len(calls)
        dur, out = o["script"][i % len(o["script"])]
        c = {"at": time.perf_counter_ns() - start[0], "S": sorted(map(repr, s.nodes())) == sorted(map(repr, S.nodes())) and s.number_of_edges() == S.number_of_edges(),
             "T": sorted(map(repr, t.nodes())), "TE": sorted(repr(tuple(sorted(e, key=repr))) for e in t.edges()), "k": sorted(k)}
        calls.append(c)
        L.sim_advance(dur)
        c["out"] = out
        if out == "raise":
            raise Failed(i)
        if out == "interrupt":
            raise KeyboardInterrupt(i)
        if out == "none":
            c["got"] = 0
            return {}
        how = o["embedder"]
        if how == "mm":
            try:
                e = minorminer.find_embedding(s, t, random_seed=i, tries=2, threads=1)
            except Exception as x:
                c["out"] = type(x).__name__
                raise
        else:
            e = find_subgraph(s, t)
            if how == "chains":
                e = {a: (b,) for a, b in e.items()}
                used = {b[0] for b in e.values()}
                for a in list(e):                   # chains of two where there is room
                    x = next((q for q in t.adj[e[a][0]] if q not in used), None)
                    if x is not None and (i + len(used)) % 3:
                        e[a] += (x,)
                        used.add(x)
        c["got"] = len(e)
        return e
    if o["embedder"] != "default":
        kw["embedder"] = embedder
    if o.get("fdur") and REAL_FILTER:
        n = [0]

        def slow_filter(*a, **k):
            n[0] += 1
            L.sim_advance(o["fdur"][n[0] % len(o["fdur"])])
            return REAL_FILTER(*a, **k)
        pe.embedding_feasibility_filter = slow_filter
    elif REAL_FILTER:
        pe.embedding_feasibility_filter = REAL_FILTER
    tried, drawn = [], [0]

    def slow_mappings(real):
        def gen(*a, **k):
            for f in real(*a, **k):
                drawn[0] += 1
                if o.get("mdur"):
                    L.sim_advance(o["mdur"][drawn[0] % len(o["mdur"])])
                yield follow(f)
        return gen

    def follow(f):
        first = [1]

        def g(n):
            if first:
                first.clear()
                tried.append(time.perf_counter_ns() - start[0])
            return f(n)
        return g
    for k, real in REAL_MAPPINGS.items():
        setattr(sys.modules["dwave.graphs"], k, slow_mappings(real))
    shots = [T, S, tile]
    before = [snap(g) for g in shots]
    fixed = {k: kw[k] for k in ("T_kwargs", "embedder_kwargs", "tile_embedding") if k in kw}
    copies = {k: dict(v) for k, v in fixed.items()}

    def run():
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            start[0] = time.perf_counter_ns()
            return (pe.find_multiple_embeddings if o["k"] == "multi" else pe.find_sublattice_embeddings)(S, given, **kw)

    def problem_of(e):
        """what is wrong with one embedding in T; `used` collects its nodes"""
        if not isinstance(e, dict):
            return "%r is no embedding" % (e,)
        if set(e) != set(S.nodes()):
            return "an embedding with chains for %s" % sorted(map(repr, e))
        ch = {v: list(c) if kw.get("one_to_iterable") else [c] for v, c in e.items()}
        for v, c in ch.items():
            if not c:
                return "an empty chain"
            for q in c:
                if q not in T:
                    return "%r, which is not in the target" % (q,)
            ok, todo = {c[0]}, [c[0]]
            while todo:
                x = todo.pop()
                for y in T.adj[x]:
                    if y in c and y not in ok:
                        ok.add(y)
                        todo.append(y)
            if set(c) - ok:
                return "a chain that is not connected: %r" % (c,)
            if len(set(c)) < len(c):
                return "a chain with a repeated node: %r" % (c,)
        for u, v in S.edges():
            if u != v and not any(T.has_edge(a, b) for a in ch[u] for b in ch[v]):
                return "an embedding in which %r and %r are not joined" % (u, v)
        return [q for c in ch.values() for q in c]

    def read(v):
        if not isinstance(v, list):
            return {"bad": "%s instead of a list" % type(v).__name__}
        owner = {}
        for i, e in enumerate(v):
            p = problem_of(e)
            if isinstance(p, str):
                return {"bad": "embedding %d: %s" % (i, p)}
            for q in p:
                if q in owner:
                    return {"bad": "embeddings %d and %d (or two chains) share %r" % (owner[q], i, q)}
                owner[q] = i
        return {"n": len(v), "embs": [sorted((repr(a), repr(b)) for a, b in e.items()) for e in v]}

    def extra(r):
        r["calls"] = [{k: c.get(k) for k in ("at", "S", "out", "got", "k")} for c in calls]
        r["start"] = start[0]
        r["tried"], r["drawn"] = tried, drawn[0]
        r["nT"], r["nS"] = T.number_of_nodes(), S.number_of_nodes()
        # what each search was given: an induced part of the target (or the tile)
        bad = []
        alln, alle = set(map(repr, T.nodes())), {repr(tuple(sorted(e, key=repr))) for e in T.edges()}
        for i, c in enumerate(calls):
            if not c["S"]:
                bad.append("search %d was given another source graph" % i)
        r["given"] = bad
        for g, b, n in zip(shots, before, ("target", "source", "tile")):
            for x, y, w in zip(snap(g) or (), b or (), ("nodes", "edges", "attributes")):
                if x != y:
                    r["changed"] = "the caller's %s graph (its %s)" % (n, w)
                    r["diff"] = [str(y)[:800], str(x)[:800]]
        for k, v in fixed.items():
            if v != copies[k]:
                r["changed"] = k
    return run, read, extra


def step(ns, o):
    return (layout if o["k"] == "layout" else many)(ns, o)
