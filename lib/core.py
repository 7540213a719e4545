"""Shared machinery: build directories, seeded case generation over a worker pool, violation gating,
minimisation, replay files, known findings and evidence."""
import hashlib, json, multiprocessing as mp, os, queue, random, shutil, signal, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NPROC = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """the check itself failed (neither pass nor violation)"""


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def tree(root, exts):
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if not x.startswith((".", "__pycache__", "_build", "build")))
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def build_dir(name, key, make):
    """directory build/<name>-<key>, produced once by make(tmpdir)"""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, "%s-%s" % (name, key))
    if os.path.exists(os.path.join(d, ".done")):
        return d
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    make(tmp)
    open(os.path.join(tmp, ".done"), "w").close()
    for old in os.listdir(BUILD):
        # at most a few old builds of the same kind are kept
        if old.startswith(name + "-") and ".tmp" not in old:
            olds = sorted((os.path.getmtime(os.path.join(BUILD, o)), o) for o in os.listdir(BUILD) if o.startswith(name + "-") and ".tmp" not in o)
            for _, o in olds[:-3]:
                shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
            break
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise CheckError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-4000:]))
    return p.stdout


class Violation:
    def __init__(self, cls, message, detail=None, signature=None):
        self.cls = cls            # violation class: what minimisation must preserve
        self.message = message
        self.detail = detail or {}
        self.signature = signature  # identifies a recorded known finding

    def to_json(self):
        return {"class": self.cls, "message": self.message, "detail": self.detail, "signature": self.signature}


class Stats:
    """additive counters and sets measured on a run"""

    def __init__(self):
        self.n = {}
        self.sets = {}
        self.samples = []
        self.max = {}

    def add(self, k, v=1):
        self.n[k] = self.n.get(k, 0) + v

    def see(self, k, v):
        self.sets.setdefault(k, set()).add(v)

    def peak(self, k, v):
        if v > self.max.get(k, v - 1):
            self.max[k] = v

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def merge(self, o):
        for k, v in o.n.items():
            self.add(k, v)
        for k, v in o.sets.items():
            self.sets.setdefault(k, set()).update(v)
        for k, v in o.max.items():
            self.peak(k, v)
        for s in o.samples:
            if len(self.samples) < 6:
                self.samples.append(s)


class Prop:
    """One checked property.
    gen(rng, i, tier) -> case (JSON), judge(case, ctx, stats) -> Violation or None, shrink(case) -> iterable of cases"""
    id = ""
    level = "exploration"
    assumptions = []
    rule = ""
    real = []
    stubs = []
    cases = {"quick": 100, "thorough": 1000}
    wall = {"quick": 300, "thorough": 3000}
    recheck = 4      # cases per worker that are executed twice and compared

    def build(self):
        pass

    def context(self):
        return None

    def close(self, ctx):
        pass

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def judge(self, case, ctx, stats):
        raise NotImplementedError

    def shrink(self, case):
        return ()

    def concretise(self, case, viol, ctx):
        """turn seeds into an explicit schedule / fault trace where possible"""
        return case

    def describe(self, case):
        return case


def case_rng(seed, prop, i):
    return random.Random("%s:%s:%s" % (seed, prop, i))


def _worker(prop, seed, tier, w, nw, ncases, deadline, stop, out):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    st = Stats()
    try:
        ctx = prop.context()
        done = 0
        for i in range(w, ncases, nw):
            if stop.is_set() or time.monotonic() > deadline:
                break
            case = prop.gen(case_rng(seed, prop.id, i), i, tier)
            if case is None:
                continue
            v = prop.judge(case, ctx, st)
            st.add("cases")
            done += 1
            if done <= prop.recheck and v is None:
                a, b = Stats(), Stats()
                prop.judge(case, ctx, a)
                prop.judge(case, ctx, b)
                st.add("determinism_rechecks")
                if a.n != b.n or a.sets != b.sets:
                    raise CheckError("case %d is not deterministic: %r vs %r" % (i, {k: (a.n.get(k), b.n.get(k)) for k in set(a.n) | set(b.n) if a.n.get(k) != b.n.get(k)}, {k: list(a.sets.get(k, set()) ^ b.sets.get(k, set()))[:3] for k in set(a.sets) | set(b.sets)}))
            if v is not None:
                out.put(("violation", i, case, v.to_json()))
        prop.close(ctx)
        out.put(("stats", w, st))
    except BaseException:
        out.put(("error", w, traceback.format_exc()))


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def minimise(prop, case, cls, ctx, budget_s=60, max_tries=600):
    t0 = time.monotonic()
    tries = 0
    progress = True
    while progress and time.monotonic() - t0 < budget_s and tries < max_tries:
        progress = False
        for cand in prop.shrink(case):
            if time.monotonic() - t0 > budget_s or tries >= max_tries:
                break
            tries += 1
            try:
                v = prop.judge(cand, ctx, Stats())
            except CheckError:
                continue
            except Exception:
                continue
            if v is not None and v.cls == cls:
                case = cand
                progress = True
                break
    return case, tries


def run_check(prop, seed, tier, argv0):
    t0 = time.monotonic()
    prop.build()
    tb = time.monotonic() - t0
    n = prop.cases[tier]
    n = int(os.environ.get("SIM_CASES", n))
    nw = min(NPROC, n)
    ctxm = mp.get_context("fork")
    out = ctxm.Queue()
    stop = ctxm.Event()
    deadline = time.monotonic() + prop.wall[tier]
    t1 = time.monotonic()
    ws = [ctxm.Process(target=_worker, args=(prop, seed, tier, w, nw, n, deadline, stop, out), daemon=False) for w in range(nw)]
    for p in ws:
        p.start()
    total = Stats()
    viols, errors, left = [], [], nw
    known = [k for k in known_findings() if k["property"] == prop.id and not k.get("fixed")]
    hits = {}
    while left:
        try:
            m = out.get(timeout=5)
        except queue.Empty:
            if not any(p.is_alive() for p in ws):
                try:
                    m = out.get(timeout=1)
                except queue.Empty:
                    errors.append("a worker died")
                    break
            else:
                continue
        if m[0] == "stats":
            total.merge(m[2])
            left -= 1
        elif m[0] == "violation":
            sig = m[3].get("signature")
            k = [x for x in known if sig and x["signature"] == sig]
            if k:
                hits[k[0]["signature"]] = k[0]
            else:
                viols.append((m[1], m[2], m[3]))
                stop.set()
        else:
            errors.append(m[2])
            left -= 1
            stop.set()
    for p in ws:
        p.join(5)
        if p.is_alive():
            p.kill()
    wall = time.monotonic() - t1
    status = 0
    if errors and not viols:
        sys.stderr.write("\n".join(errors) + "\n")
        raise CheckError("worker failure")
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]))
    replay = None
    if viols:
        viols.sort(key=lambda x: x[0])
        i, case, v = viols[0]
        print("seed=%s case=%d class=%s: %s" % (seed, i, v["class"], v["message"]))
        ctx = prop.context()
        a = prop.judge(case, ctx, Stats())
        b = prop.judge(case, ctx, Stats())
        if a is None or b is None or a.to_json() != b.to_json():
            raise CheckError("violation of case %d does not repeat: %r / %r" % (i, a and a.to_json(), b and b.to_json()))
        case2 = prop.concretise(case, a, ctx)
        a2 = prop.judge(case2, ctx, Stats())
        if a2 is None or a2.cls != a.cls:
            case2, a2 = case, a
        small, tries = minimise(prop, case2, a2.cls, ctx)
        fin = prop.judge(small, ctx, Stats())
        prop.close(ctx)
        replay = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (prop.id, seed, i))
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        json.dump({"property": prop.id, "seed": seed, "case_index": i, "violation": fin.to_json(), "case": small, "shrink_attempts": tries},
                  open(replay, "w"), indent=1)
        p = subprocess.run([sys.executable, argv0, prop.id, "--replay", replay], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 1 or "REPLAYED" not in p.stdout:
            raise CheckError("replay in a fresh process did not reproduce the violation:\n" + p.stdout[-2000:])
        print("violation: %s: %s" % (fin.cls, fin.message))
        print("VIOLATION property=%s replay=%s" % (prop.id, replay))
        status = 1
    write_evidence(prop, seed, tier, total, wall, tb, time.monotonic() - t0, len(viols), list(hits))
    return status


def write_evidence(prop, seed, tier, st, wall, tbuild, ttotal, nv, known):
    runs = st.n.get("runs", 0)
    simns = st.n.get("sim_ns", 0)
    faults = {k[6:]: v for k, v in sorted(st.n.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(st.n.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(st.n.items()) if not k.startswith(("fault:", "probe:")) and k not in ("runs", "sim_ns", "cases")}
    ev = {
        "property": prop.id, "tier": tier, "seed": int(seed), "level": prop.level,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(st.sets.get("nontrivial", ())),
            "rule": prop.rule,
            "samples": [prop.describe(s) for s in st.samples] or ["none"],
            "cases": st.n.get("cases", 0),
            "runs_per_hour": int(runs * 3600 / wall) if wall > 0 else 0,
            "cases_per_hour": int(st.n.get("cases", 0) * 3600 / wall) if wall > 0 else 0,
            "simulated_seconds": simns / 1e9,
            "faults_injected": faults,
            "probes": probes,
            "counters": other,
            "distinct": {k: len(v) for k, v in sorted(st.sets.items())},
            "peaks": dict(sorted(st.max.items())),
            "components_real": prop.real,
            "components_stubbed": prop.stubs,
            "known_findings_hit": known,
            "build_s": round(tbuild, 1),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(ttotal, 2),
        "violations": nv,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def run_replay(prop, path):
    d = json.load(open(path))
    prop.build()
    ctx = prop.context()
    v = prop.judge(d["case"], ctx, Stats())
    prop.close(ctx)
    if v is None:
        print("replay: no violation")
        return 0
    print("%s: %s" % (v.cls, v.message))
    if v.detail:
        print(json.dumps(v.detail)[:3000])
    print("REPLAYED property=%s class=%s" % (prop.id, v.cls))
    return 1


def main(props, argv):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        argv = argv[:i] + argv[i + 2:]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    pid = argv[1]
    if pid not in props:
        sys.stderr.write("unknown property %s\n" % pid)
        return 2
    prop = props[pid]()
    try:
        if len(argv) > 3 and argv[2] == "--replay":
            return run_replay(prop, argv[3])
        print("property=%s tier=%s VERIF_SEED=%d" % (pid, tier, seed), flush=True)
        rc = run_check(prop, seed, tier, os.path.abspath(argv[0]))
        if rc == 0:
            print("OK property=%s" % pid)
        return rc
    except CheckError as e:
        sys.stderr.write("CHECK-ERROR %s: %s\n" % (pid, e))
        return 3
