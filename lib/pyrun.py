"""Runs inside a Python process that has sim/pysim.cpp preloaded: executes histories of calls of the real
minorminer package, each in a forked child, with the plan of clocks, failures and signals it is given.
usage: pyrun.py <package dir> <site-packages>; one JSON case per line on stdin, one JSON result per line on stdout"""
import ctypes, gc, json, os, resource, select, signal, sys, time

sys.path[:0] = [sys.argv[1]]
if sys.argv[2] not in sys.path:
    sys.path.append(sys.argv[2])
KINDS = ("mono", "real", "new", "malloc", "py", "thread", "rand", "log", "pymono")
NK = len(KINDS)
i64 = ctypes.c_int64


class Plan(ctypes.Structure):
    _fields_ = [("fail_at", i64 * NK), ("fail_n", i64 * NK), ("sig_at", i64 * NK), ("step_ns", i64), ("mono_at", i64), ("mono_ns", i64), ("real_at", i64), ("real_ns", i64), ("rand_seed", ctypes.c_uint64)]


class Counts(ctypes.Structure):
    _fields_ = [("n", i64 * NK), ("fired", i64 * NK), ("sig", i64), ("mono_ns", i64), ("sig_event", i64 * NK)]


L = ctypes.PyDLL(None)
L.sim_advance.argtypes = [i64]
L.sim_module.argtypes = [ctypes.c_char_p]
L.sim_count.argtypes = [ctypes.c_int]
L.sim_count.restype = i64
LOGS = []
UNRAISABLE = []


def label(kind, side, i):
    if kind == "int":
        return i
    if kind == "off":
        return 1000 - 7 * i
    if kind == "str":
        return "%s%d" % (side, i)
    if kind == "tuple":
        return (side, i % 3, i)
    if kind == "mixed":
        return (i, "n%d" % i, (i, i), float(i) + .5, frozenset([i, -1]))[i % 5]
    if kind == "same":              # source and target use the same labels
        return "v%d" % i
    raise ValueError(kind)


class GraphLike:
    """what _read_graph takes for a graph"""

    def __init__(self, nodes, edges):
        self._n, self._e = nodes, edges

    def edges(self):
        return self._e

    def nodes(self):
        return self._n


class Names:
    def __init__(self, case):
        self.s, self.t = case.get("ls", "int"), case.get("lt", "int")
        self.n = 400
        self.sl = [label(self.s, "s", i) for i in range(self.n)]
        self.tl = [label(self.t, "t", i) for i in range(self.n)]
        self.si = {x: i for i, x in enumerate(self.sl)}
        self.ti = {x: i for i, x in enumerate(self.tl)}

    def chains(self, l, typ=list):
        return {self.sl[v]: typ(self.tl[q] for q in c) for v, c in l}

    def back(self, emb):
        """an embedding in numbers, or a description of what is wrong with its form"""
        if not isinstance(emb, dict):
            return {"form": "%s instead of a dict" % type(emb).__name__}
        out = []
        for k, c in emb.items():
            if k not in self.si or type(k) is not type(self.sl[self.si[k]]):
                return {"form": "key %r is not a source label" % (k,)}
            if not isinstance(c, (list, tuple)):
                return {"form": "chain %r" % (c,)}
            q = []
            for x in c:
                if x not in self.ti:
                    return {"form": "%r is not a target label" % (x,)}
                q.append(self.ti[x])
            out.append([self.si[k], q])
        return {"emb": sorted(out), "order": [x[0] for x in out]}


def graph(nm, side, edges, form, extra):
    lab = nm.sl if side == "s" else nm.tl
    es = [(lab[a], lab[b]) for a, b in edges]
    if form == "edges":
        return es
    ns = []
    for e in es:
        for x in e:
            if x not in ns:
                ns.append(x)
    ns += [lab[i] for i in extra if lab[i] not in ns]
    if form == "graph":
        return GraphLike(ns, es)
    if form == "gen":
        return iter(es)
    import networkx
    g = networkx.Graph()
    g.add_nodes_from(ns)
    g.add_edges_from(es)
    return g


NAMES = {"seed": "random_seed", "tries": "tries", "mni": "max_no_improvement", "ir": "inner_rounds", "clp": "chainlength_patience", "threads": "threads", "max_beta": "max_beta",
         "max_fill": "max_fill", "overlap": "return_overlap", "verbose": "verbose", "interactive": "interactive", "skip": "skip_initialization", "timeout": "timeout"}


def problem(nm, p):
    kw = {NAMES[k]: v for k, v in p.items() if k in NAMES and v is not None}
    for k, name in (("fixed", "fixed_chains"), ("initial", "initial_chains"), ("restrict", "restrict_chains")):
        if p.get(k):
            kw[name] = nm.chains(p[k], tuple if p.get("tup") else list)
    if p.get("suspend"):
        kw["suspend_chains"] = {nm.sl[v]: [[nm.tl[q] for q in b] for b in bl] for v, bl in p["suspend"]}
    kw.update(p.get("raw", {}))
    return graph(nm, "s", p["S"], p.get("sform", "edges"), p.get("sx", ())), graph(nm, "t", p["T"], p.get("tform", "edges"), p.get("tx", ())), kw


def answer(nm, v):
    if isinstance(v, tuple):
        if len(v) != 2:
            return {"form": "tuple of %d" % len(v)}
        return dict(nm.back(v[0]), rc=int(v[1]), tup=1)
    if isinstance(v, list):
        return {"list": [answer(nm, x) for x in v]}
    return dict(nm.back(v), tup=0)


def busgraph(mods, o):
    import dwave.graphs as dg
    gen = {"chimera": dg.chimera_graph, "pegasus": dg.pegasus_graph, "zephyr": dg.zephyr_graph}[o["fam"]]
    g = gen(*o["args"], **({"coordinates": True} if o.get("coord") else {}))
    ns, es = sorted(g.nodes()), sorted(tuple(sorted(e)) for e in g.edges())
    g.remove_nodes_from([ns[i] for i in o.get("rn", ()) if i < len(ns)])
    g.remove_edges_from([es[i] for i in o.get("re", ()) if i < len(es)])
    return g


def plain(v):
    """a value as JSON, dicts as sorted lists"""
    if isinstance(v, dict):
        return {"d": sorted(([repr(k), plain(x)] for k, x in v.items()))}
    if isinstance(v, (set, frozenset)):
        return {"s": sorted(map(repr, v))}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (int, str, float)) or v is None:
        return v
    if isinstance(v, bytes):
        return v.hex()
    return repr(v)


def step(ns, o):
    """prepares one operation; returns the function to be simulated and the function that reads its answer"""
    k = o["k"]
    nm = ns["nm"]
    import minorminer
    if k == "find":
        S, T, kw = problem(nm, o["p"])
        return (lambda: minorminer.find_embedding(S, T, **kw)), lambda v: answer(nm, v)
    if k == "miner":
        S, T, kw = problem(nm, o["p"])

        def mk():
            ns["miners"][o.get("id", 0)] = None
            ns["miners"][o.get("id", 0)] = minorminer.miner(S, T, **kw)
        return mk, lambda v: None
    if k in ("m.find", "m.finds", "m.quick", "m.initial", "m.improve", "m.key"):
        m = ns["miners"].get(o.get("id", 0))
        if m is None:
            return (lambda: None), lambda v: {"skipped": 1}
        if k == "m.find":
            return m.find_embedding, lambda v: answer(nm, v)
        if k == "m.finds":
            return (lambda: m.find_embeddings(o["n"], force=bool(o.get("force")))), lambda v: answer(nm, v)
        if k == "m.initial":
            c = nm.chains(o["chains"])
            c.update({x: [nm.tl[0]] for x in o.get("badkey", ())})
            if o.get("badval"):
                c[nm.sl[o["badval"][0]]] = [o["badval"][1]]
            return (lambda: m.set_initial_chains(c)), lambda v: None
        if k == "m.improve":
            e = [nm.chains(x) for x in o["embs"]]
            return (lambda: m.improve_embeddings(e)), lambda v: answer(nm, v)
        if k == "m.key":
            e = nm.chains(o["chains"])
            return (lambda: m.quality_key(e)), plain
        kw = dict(o.get("kw", {}))
        if "strategy" in kw:
            kw["strategy"] = minorminer.VARORDER(kw["strategy"])
        if "varorder" in kw:
            kw["varorder"] = [nm.sl[v] if v >= 0 else "no such node" for v in kw["varorder"]]
        return (lambda: m.quickpass(**kw)), lambda v: answer(nm, v)
    if k == "bus":
        import minorminer.busclique as b
        g = busgraph(None, o)
        q = o["q"]
        if q[0] == "clique":
            return (lambda: b.find_clique_embedding(q[1], g, seed=o.get("s", 0), use_cache=False)), plain
        if q[0] == "ident":
            return (lambda: b.busgraph_cache(g, seed=o.get("s", 0)).topology_identifier()), plain
        fn = {"chimera": b._chimera_busgraph, "pegasus": b._pegasus_busgraph, "zephyr": b._zephyr_busgraph}[o["fam"]]
        if q[0] == "cliques":
            return (lambda: fn(g, seed=o.get("s", 0), compute_identifier=True).cliques()), plain
        if q[0] == "bicliques":
            return (lambda: fn(g, seed=o.get("s", 0)).bicliques()), plain
        if q[0] == "frag":
            def f():
                x = fn(g, seed=o.get("s", 0))
                m, n, t, nodes, edges = x.fragment_graph_spec()
                return m, n, t, sorted(nodes), sorted(edges), sorted(x.fragment_nodes(sorted(g.nodes())[:3] if g.graph["labels"] == "int" else [0]))
            return f, plain
        raise ValueError(q)
    if k == "pack":
        import minorminer._extern.rpack as rpack
        from minorminer._extern.rpack import _core
        sz = [tuple(x) for x in o["sizes"]]
        return (lambda: rpack.pack(sz, **o.get("kw", {}))), plain
    if k == "advance":
        return (lambda: L.sim_advance(o["ns"])), lambda v: None
    if k in ("layout", "multi", "sublattice"):
        import pysim_apps
        return pysim_apps.step(ns, o)
    raise ValueError(k)


class Sink:
    """stands in for the application's log handler"""

    def __init__(self, how):
        self.how = how

    def install(self):
        import logging

        class H(logging.Handler):
            def emit(h, rec):
                L.sim_log()
                LOGS.append(rec.getMessage() if not isinstance(rec.msg, bytes) else rec.msg.decode())
                if self.how == "raise":
                    raise RuntimeError("the log is full")
                if self.how == "slow":
                    L.sim_advance(10 ** 9)
                if self.how == "memory":
                    raise MemoryError
        lg = logging.getLogger("minorminer._minorminer")
        lg.setLevel(logging.DEBUG)
        lg.propagate = False
        lg.handlers[:] = [H()]
        logging.raiseExceptions = False


class Out:
    """the application's sys.stdout (a notebook's, say): runs Python code"""

    def write(self, s):
        L.sim_log()
        LOGS.append(s)
        return len(s)

    def flush(self):
        pass


HITS, CALLING, LATE = [], [], []


def on_sigint(sig, frame):
    HITS.append(1)
    if not CALLING:
        LATE.append(1)
        return
    raise KeyboardInterrupt("simulated")


def run(case):
    gc.disable()
    sys.unraisablehook = lambda a: UNRAISABLE.append(a.exc_type.__name__)
    signal.signal(signal.SIGINT, on_sigint)
    Sink(case.get("sink", "list")).install()
    real_out = sys.stdout
    ns = {"nm": Names(case), "miners": {}, "case": case}
    res = []
    for o in case["ops"]:
        r = {}
        e = o.get("env", {})
        p = Plan()
        for f, d in (("fail_at", "fail"), ("sig_at", "sig")):
            for k, v in e.get(d, {}).items():
                getattr(p, f)[KINDS.index(k)] = v
        for i in range(NK):
            p.fail_n[i] = e.get("fail_n", 1)
        p.step_ns = e.get("step", 1000)
        p.mono_at, p.mono_ns = e.get("leap", (0, 0))
        p.real_at, p.real_ns = e.get("set", (0, 0))
        p.rand_seed = e.get("rand", 1)
        cnt = Counts()
        py = int(bool(e.get("py") or "py" in e.get("fail", {}) or "py" in e.get("sig", {})))
        L.sim_module(e.get("mod", "//none").encode())
        HITS.clear()
        UNRAISABLE.clear()
        LOGS.clear()
        fn, read, *extra = step(ns, o)
        if e.get("out"):
            sys.stdout = Out()
        begin, end, pp, pc = L.sim_begin, L.sim_end, ctypes.byref(p), ctypes.byref(cnt)
        exc = val = None
        CALLING.append(1)
        try:
            begin(pp, py)
            val = fn()
        except BaseException as x:
            exc = x
        CALLING.clear()
        while True:
            try:
                end(pc)
                break
            except MemoryError:    # the last of the failures
                pass
        for _ in range(50):        # what is still pending comes now
            pass
        if LATE:
            r["late"] = 1
            LATE.clear()
        sys.stdout = real_out
        if exc is not None:
            r["exc"] = type(exc).__name__
            r["err"] = isinstance(exc, Exception)
            try:
                r["msg"] = str(exc)[:200]
            except Exception:
                r["msg"] = "?"
            exc.__traceback__ = None
            exc.__context__ = None
        else:
            a = read(val)
            if a is not None:
                r["a"] = a
        for f in extra:
            f(r)
        val = exc = None
        r["hits"] = len(HITS)
        r["n"] = {k: cnt.n[i] for i, k in enumerate(KINDS) if cnt.n[i]}
        r["fired"] = {k: cnt.fired[i] for i, k in enumerate(KINDS) if cnt.fired[i]}
        if cnt.sig:
            r["sig"] = cnt.sig
            r["at"] = {k: cnt.sig_event[i] for i, k in enumerate(KINDS) if cnt.sig_event[i]}
        r["mono"] = cnt.mono_ns
        if UNRAISABLE:
            r["unraisable"] = UNRAISABLE[:5]
        r["logs"] = len(LOGS)
        if o.get("lines"):
            r["lines"] = list(LOGS)
        res.append(r)
    return res


def read_all(fd, n):
    b = b""
    while len(b) < n:
        b += os.read(fd, n - len(b))
    return b


def serve(size, proto):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            case = json.loads(read_all(0, size))
            # their default action ends the process
            signal.setitimer(signal.ITIMER_PROF, case.get("limit", 30))
            signal.setitimer(signal.ITIMER_REAL, 10 * case.get("limit", 30))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            try:
                out = {"ok": run(case)}
            except BaseException as x:
                import traceback
                out = {"harness": traceback.format_exc()[-3000:]}
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.setitimer(signal.ITIMER_PROF, 0)
            b = json.dumps(out).encode()
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    parts = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        parts.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        n = os.WTERMSIG(st)
        out = b'{"hang": 1}' if n in (signal.SIGALRM, signal.SIGPROF) else b'{"signal": %d}' % n
    elif os.WEXITSTATUS(st) == 77:
        out = b'{"interpreter": 1}'
    else:
        out = b"".join(parts)
    out += b"\n"
    while out:
        out = out[os.write(proto, out):]
    gc.collect()


def main():
    import minorminer, minorminer.busclique, minorminer._extern.rpack, networkx, dwave.graphs, logging, traceback
    if len(sys.argv) > 3:
        sys.path.append(sys.argv[3])
    sys.modules["pyrun"] = sys.modules["__main__"]
    import pysim_apps
    pysim_apps.load()
    null = os.open(os.devnull, os.O_WRONLY)
    proto = os.dup(1)
    os.dup2(null, 2)
    os.dup2(null, 1)
    L.sim_hook_python()
    # warm up: what is made once per process
    nm = dict(ls="int", lt="int")
    warm = {"ops": [{"k": "find", "p": {"S": [[0, 1]], "T": [[0, 1], [1, 2]], "seed": 1, "verbose": 3}}]}
    run(warm)
    gc.collect()
    gc.freeze()
    # the child reads the case, so that nothing a case does reaches the next one
    while True:
        select.select([0], [], [])
        head = b""
        while len(head) < 8:
            b = os.read(0, 8 - len(head))
            if not b:
                return
            head += b
        serve(int(head, 16), proto)


if __name__ == "__main__":
    main()
