"""C10-C16: the clique cache of minorminer.busclique on a simulated machine"""
from core import *
import csim, pybuild
from csim import CacheCtx, execute, forked, BICLIQUE, QUALITY, view, POOL, COLLIDE, CACHE

SMALL = (0, 1, 2, 3, 4, 6, 7, 11, 12, 14, 15, 16, 17)
ALL = tuple(range(len(POOL)))


def queries(ctxless_g, rng, bic=True):
    r = rng.random()
    if r < .35:
        return ["clique", rng.choice((1, 2, 2, 3, 4, 5))]
    if r < .45:
        return ["largest"]
    if r < .55:
        return ["bylen", rng.randint(1, 4)]
    if r < .65:
        return ["get"]
    if r < .75:
        return ["module", rng.choice((2, 3, 4))]
    if not bic:
        return ["clique", rng.choice((2, 3))]
    return ["bic", rng.randint(1, 2), rng.randint(1, 3)] if r < .92 else ["balanced"]


def sched(rng, ntasks, span):
    """how the tasks of one round are interleaved"""
    p = {"sseed": rng.randrange(1 << 30)}
    r = rng.random()
    if r < .6:
        p["psw"] = rng.choice((.02, .08, .2, .4, .7))
    elif r < .85:
        p.update(mode="pct", depth=rng.choice((1, 2, 3, 5)), span=span)
    else:
        p["mode"] = "rr"
    if rng.random() < .35:
        p["stalls"] = [[rng.randrange(ntasks), rng.randint(1, 60), rng.choice((.001, .05, 1., 10.))] for _ in range(rng.randint(1, 3))]
    return p


class CacheProp(Prop):
    real = ["minorminer/busclique.pyx (Cython extension built from the working tree, one private copy per simulated process)", "include/busclique", "fasteners", "homebase", "pickle, pathlib, tempfile, gzip, json",
            "CPython threads (one runs at a time)"]
    stubs = ["file system, descriptors, POSIX and flock locks, threading locks, clocks, sleep, random bytes and process identity (lib/simfs.py)", "process death: all tasks of a process stop for ever, its descriptors and locks go"]
    assumptions = ["rename, unlink and mkdir are atomic towards other processes, as POSIX says", "file locks are released when their process dies", "the cache directory is not shared with programs other than minorminer"]
    rule = "a run counts when tasks interleaved or a fault fired; distinct by the hash of its scheduling decisions and the workload"
    recheck = 3
    level = "exploration"
    evict_ok = False

    def build(self):
        pybuild.build_package()

    def context(self):
        return CacheCtx()

    # ---------------------------------------------------------------- running and judging
    def run(self, case, ctx, stats):
        if ctx.broken:
            return None, Violation("setup", "using the cache one call after another failed: %s" % ctx.broken)
        r = forked(lambda: execute(ctx, case), 120)
        if r[0] == "timeout":
            return None, Violation("hang", "the run did not end (no simulated operation is reached any more)")
        if r[0] == "signal":
            return None, Violation("signal", "the process died of signal %d" % r[1])
        if r[0] == "error":
            if "CheckError" in r[1]:
                raise CheckError(r[1])
            last = r[1].strip().splitlines()[-1]
            return None, Violation("prefix", "operations done one after the other failed: %s" % last, {"trace": r[1][-1500:]})
        rec = r[1]
        stats.add("runs", len(rec["phases"]))
        stats.add("sim_ns", int(rec["sim"] * 1e9))
        stats.add("operations", len(rec["ops"]))
        stats.add("file_operations", rec["nops"])
        stats.add("context_switches", rec["switches"])
        for k, v in rec["fired"].items():
            stats.add(("probe:" if k == "lock_contended" else "fault:") + k, v)
        for k in rec["kinds"]:
            stats.see("operation_kinds", k)
        h = ":".join(str(p["hash"]) for p in rec["phases"]) + ":%d" % rec["nops"]
        stats.see("interleavings", h)
        if rec["switches"] or rec["fired"]:
            stats.see("nontrivial", h)
        stats.sample(case)
        for p in rec["phases"]:
            for b in p["broken"]:
                if b.startswith("CheckError"):
                    raise CheckError(b)
                return rec, Violation("raised", "an operation raised %s" % b)
            if p["why"] == "deadlock":
                return rec, Violation("deadlock", "in %s every remaining task waits for ever" % p["tag"], {"ops": self.pending(rec)})
            if p["why"] == "stuck":
                return rec, Violation("stuck", "in %s no progress was made for a very long time" % p["tag"], {"ops": self.pending(rec)})
            if p["why"] is None and p.get("held") and not p["crashed"]:
                return rec, Violation("lock_held", "%s is still locked after everything had ended" % p["held"])
        if any(o["status"] == "lost" for o in rec["ops"]) and not rec["fired"].get("crash") and not rec["fired"].get("torn_write_at_crash") and not rec["fired"].get("power_loss"):
            raise CheckError("an operation neither returned nor raised")
        return rec, None

    @staticmethod
    def pending(rec):
        return [(o["proc"], o["thread"], o["op"]) for o in rec["ops"] if o["status"] == "lost"][:6]

    def exceptions(self, rec, allowed=lambda o: False):
        for o in rec["ops"]:
            if o["status"] == "exc" and not allowed(o):
                return Violation("exception", "process %d, thread %d: %s raised %s: %s" % (o["proc"], o["thread"], o["op"], o["exc"], o["msg"]), {"where": o["where"], "faults": o["faults"]})

    def registers(self, case, ctx, rec, stats, power=False):
        """every answer is that of the computed content or of stored content, as if operations on one entry took place one at a time"""
        state0, regs = {}, {}
        for op in case.get("prefix", ()):
            if op["k"] == "update":
                state0[ctx.ident(op["g"], op.get("s", 0))] = op["pay"]
            elif op["k"] == "transfer":
                state0[ctx.ident(op["g"], op["to"])] = ("of", op["g"], op.get("s", 0), state0.get(ctx.ident(op["g"], op.get("s", 0))))
        lost_end = {p["tag"]: p["end"] for p in rec["phases"]}
        last = max(p["end"] for p in rec["phases"])
        first, own, pend, inmem = {}, {}, {}, []
        for n, o in enumerate(rec["ops"]):
            op = o["op"]
            s = op.get("s", 0)
            obj = None if op.get("o") is None else (o["phase"], o["proc"], None if op.get("shared") else o["thread"], op["o"], op["g"], s)
            if op["k"] in ("update", "direct"):
                mod = ("update", op["pay"]) if op["k"] == "update" else ("direct", op["g"], op["cand"])
                if op.get("mem"):
                    pend.setdefault(obj, []).append(mod)
                    continue
                mods = pend.get(obj, []) + [mod]
                if o["status"] == "ok":
                    pend.pop(obj, None)
                end = o["end"] if o["end"] is not None else min(e for e in lost_end.values() if e > o["start"])
                regs.setdefault(ctx.ident(op["g"], s), []).append(["m", mods, o["start"], end, o["status"] != "ok", n])
                if obj is not None and o["status"] == "ok":
                    first.setdefault(obj + (False,), o["start"])
                    if not op.get("shared"):
                        own[obj] = (mod, o["start"], o["end"])
            elif op["k"] == "transfer":
                src = ctx.ident(op["g"], s)
                key, st = ctx.ident(op["g"], op["to"]), ("of", op["g"], s, state0.get(src))
                end = o["end"] if o["end"] is not None else min(e for e in lost_end.values() if e > o["start"])
                regs.setdefault(key, []).append(["w", st, o["start"], end, o["status"] != "ok", n])
            elif op["k"] == "q" and o["status"] == "ok":
                q = tuple(op["q"])
                key = ctx.ident(op["g"], s)
                if q[0] in BICLIQUE:
                    key = ("bic", key)
                start = o["start"]
                mine = None
                if obj is not None:      # an object may keep what it read first
                    start = first.setdefault(obj + (q[0] in BICLIQUE,), start)
                    if q[0] not in BICLIQUE and q[0] != "module":
                        if pend.get(obj):
                            inmem.append((key, list(pend[obj]), n))
                            continue
                        mine = own.get(obj)
                regs.setdefault(key, []).append(["r", None, start, o["end"], False, n, mine])
        allst = {}
        for key in set(regs) | {x[0] for x in inmem}:
            ev = regs.get(key, ())
            states = {state0.get(key)} | {e[1] for e in ev if e[0] == "w"} | ({None} if power or self.evict_ok else set())
            mods = [e[1] for e in ev if e[0] == "m"]
            frontier = {(st, ()) for st in states}
            while frontier:              # everything that the modifications, in any order, can lead to
                new = set()
                for st, done in frontier:
                    for i, m in enumerate(mods):
                        if i not in done:
                            x = apply(m, st)
                            if x not in states or any(y[0] == "direct" for y in m):
                                states.add(x)
                                new.add((x, tuple(sorted(done + (i,)))))
                frontier = new
            allst[key] = states
        for key, mods, n in inmem:       # an object that was changed in memory only
            o = rec["ops"][n]
            op, v = o["op"], o["value"]
            q, g, s = tuple(op["q"]), op["g"], op.get("s", 0)
            stats.add("answers_checked")
            can = {apply(mods, st) for st in allst[key]}
            if not ctx.states_of(g, s, can, q, v):
                return Violation("wrong_answer", "process %d: %s on graph %r seed %d returned %r from an object that was updated in memory" % (o["proc"], q, POOL[g], s, str(v)[:300]), {"possible": [str(ctx.expect(g, s, st, q))[:300] for st in sorted(can, key=str)]})
        for key, ev in regs.items():
            states = allst[key]
            for e in ev:
                if e[0] == "r":
                    o = rec["ops"][e[5]]
                    op = o["op"]
                    q, g, s = tuple(op["q"]), op["g"], op.get("s", 0)
                    v = o["value"]
                    for st in states:
                        x = ctx.expect(g, s, st, q)
                        if isinstance(x, tuple) and x[:1] == ("raises",):
                            return Violation("isolated", "%s on graph %r raises in an isolated process: %s" % (q, POOL[g], x[1:]))
                    e[1] = ctx.states_of(g, s, states, q, v)
                    bad = ctx.valid(g, q, v)
                    if bad and (None in e[1] or not e[1]):
                        return Violation("invalid", "%s on graph %r: %s" % (q, POOL[g], bad), {"answer": v, "op": n})
                    stats.add("answers_checked")
                    if not e[1]:
                        return Violation("wrong_answer", "process %d: %s on graph %r seed %d returned %r; no content that was ever stored or computed gives that"
                                         % (o["proc"], q, POOL[g], s, str(v)[:300]), {"possible": [str(ctx.expect(g, s, st, q))[:300] for st in sorted(states, key=str)]})
                    if e[6]:             # what an object itself stored on disk it must show, unless it shows something newer
                        (kind, *what), t0, t1 = e[6]
                        seen = {st for st in e[1] if (st == what[0] if kind == "update" else isinstance(st, tuple) and st[:3] == ("direct", *what))}
                        if seen:
                            e[1], e[2] = seen, t0
                        else:
                            e[2] = t1
            if len(states) > 1 or any(e[0] in "wm" for e in ev):
                stats.add("histories_linearised")
                reset = [p["end"] for p in rec["phases"] if p["why"] == "power"] if power else []
                if not linearise(ev, state0.get(key), reset, self.evict_ok):
                    return Violation("not_linearisable", "the answers and updates for one graph contradict every order of them",
                                     {"history": [(("read" if e[0] == "r" else "update"), str(e[1]), e[2], e[3], "optional" if e[4] else "", rec["ops"][e[5]]["op"]) for e in ev]})

    def bounds(self, rec, tag="after", extra=0):
        """after the last phase, and a use of either kind, the directories are bounded"""
        p = rec["phases"][-1]
        if p["why"] is not None or "files" not in p:
            return None
        for d, fs in p["files"].items():
            if not fs:
                continue
            vis = [f for f in fs if not f.startswith(".")]
            if len(vis) > 100:
                return Violation("unbounded", "%s holds %d cache files" % (d, len(vis)), {"some": vis[:4] + vis[-4:]})
            if len(fs) > 100 + 8:
                return Violation("leftovers", "%s holds %d files" % (d, len(fs)), {"some": fs[:10]})
        return None

    # ---------------------------------------------------------------- minimisation
    def concretise(self, case, viol, ctx):
        r = forked(lambda: execute(ctx, case), 120)
        if r[0] != "ok":
            return case
        c = json.loads(json.dumps(case))
        for rd, p in zip(c["rounds"], r[1]["phases"]):
            rd["plan"] = {k: v for k, v in rd["plan"].items() if k not in ("psw", "depth", "span")}
            rd["plan"]["mode"] = "trace"
            rd["plan"]["trace"] = [list(x) for x in p["trace"]]
        return c

    def shrink(self, case):
        def cp():
            return json.loads(json.dumps(case))
        n = len(case["rounds"])
        if n > 1:
            for i in range(n):
                c = cp()
                del c["rounds"][i]
                yield c
        if len(case.get("prefix", ())):
            for i in range(len(case["prefix"])):
                c = cp()
                del c["prefix"][i]
                yield c
        if len(case.get("after", ())) > 1:
            for i in range(len(case["after"])):
                c = cp()
                del c["after"][i]
                yield c
        for ai, ops in enumerate(case.get("after", ())):
            for i in range(len(ops)):
                c = cp()
                del c["after"][ai][i]
                yield c
        for ri, rd in enumerate(case["rounds"]):
            for pi, p in enumerate(rd["procs"]):
                for ti, ops in enumerate(p["threads"]):
                    if ops:
                        c = cp()
                        c["rounds"][ri]["procs"][pi]["threads"][ti] = []      # keeps the task numbers
                        yield c
                    for i in range(len(ops)):
                        if len(ops) > 1:
                            c = cp()
                            del c["rounds"][ri]["procs"][pi]["threads"][ti][i]
                            yield c
                if p.get("start"):
                    c = cp()
                    p2 = c["rounds"][ri]["procs"][pi]
                    del p2["start"]
                    yield c
            for k in ("stalls", "errs", "crashes", "trace"):
                l = rd["plan"].get(k) or []
                step = max(1, len(l) // 2)
                while l and step:
                    for i in range(0, len(l), step):
                        c = cp()
                        del c["rounds"][ri]["plan"][k][i:i + step]
                        yield c
                    step //= 2
        if case["fs"] > 0:
            for f in (0,) if case["fs"] <= 50 else (0, 50):
                c = cp()
                c["fs"] = f
                yield c


def apply(mods, st):
    for m in mods:
        st = m[1] if m[0] == "update" else m + (st,)
    return st


def linearise(ev, init, resets=(), evict=False):
    """ev: [kind, state(s), start, end, optional, ...]; reads name the states that explain them; after a reset (power loss) the state may be any"""
    ev = sorted(ev, key=lambda e: e[2])
    n = len(ev)
    if n > 24:
        ev = ev[:24]
        n = 24
    seen = set()
    allstates = {init, None} | {e[1] for e in ev if e[0] == "w"} | {apply(e[1], None) for e in ev if e[0] == "m"}

    def go(done, state, top):
        if (done, state, top) in seen:
            return False
        if all(done >> i & 1 or ev[i][4] for i in range(n)):
            return True
        seen.add((done, state, top))
        low = min(ev[i][3] for i in range(n) if not done >> i & 1 and not ev[i][4])
        for i in range(n):
            e = ev[i]
            if done >> i & 1 or e[2] > low or (e[4] and e[3] < top):
                continue
            cand = {state}
            for r in resets:
                if top <= r <= e[2]:
                    cand = allstates
            if evict:
                cand = cand | {None}
            for st in cand:
                if e[0] == "r":
                    if st in e[1] and go(done | 1 << i, st, max(top, e[2])):
                        return True
                else:
                    if go(done | 1 << i, e[1] if e[0] == "w" else apply(e[1], st), max(top, e[2])):
                        return True
                    if e[0] == "w":
                        break
        return False
    return go(0, init, -1)


def pick_graphs(rng, n=None):
    """graphs of one workload: often two with the same cache file name"""
    r = rng.random()
    if r < .3:
        gs = list(rng.choice(COLLIDE))
    elif r < .45:
        gs = list(rng.choice(COLLIDE)) + [rng.choice(SMALL)]
    elif r < .55:
        gs = [1, 17]          # one graph under two labellings
    else:
        gs = [rng.choice(ALL if rng.random() < .4 else SMALL) for _ in range(rng.choice((1, 1, 2, 3)))]
    return gs


def q_op(rng, gs, kept=True, bic=True, seeds=(0, 0, 0, 1)):
    op = {"k": "q", "g": rng.choice(gs), "s": rng.choice(seeds), "q": queries(None, rng, bic)}
    if kept and op["q"][0] != "module" and rng.random() < .3:
        op["o"] = rng.randint(0, 1)
        if rng.random() < .4:
            op["shared"] = 1
            op["o"] += 2
    return op


def workload(rng, mk, nproc=(1, 4), nthr=(1, 3), nops=(1, 3), maxtasks=6):
    procs, tasks = [], 0
    for _ in range(rng.randint(*nproc)):
        p = {"threads": []}
        for _ in range(rng.randint(*nthr)):
            if tasks < maxtasks:
                p["threads"].append([mk() for _ in range(rng.randint(*nops))])
                tasks += 1
        if rng.random() < .2:
            p["start"] = rng.choice((.0005, .002, .05))
        if p["threads"]:
            procs.append(p)
    return procs, tasks


def after_reads(rng, gs, extra=()):
    """fresh processes that look at everything"""
    out = []
    for g in sorted(set(gs)):
        for s in (0, 1):
            out.append({"k": "q", "g": g, "s": s, "q": rng.choice((["get"], ["clique", 2], ["largest"]))})
    out.append({"k": "q", "g": rng.choice(gs), "s": 0, "q": ["bic", 1, 2]})
    rng.shuffle(out)
    return [out[: len(out) // 2], out[len(out) // 2:]]


FILLW = (-1, -1, 0, 0, 0, 50, 96, 98, 99, 99, 100, 100, 104)


class C10(CacheProp):
    id = "C10"
    cases = {"quick": 6000, "thorough": 150000}
    wall = {"quick": 75, "thorough": 2400}

    def gen(self, rng, i, tier):
        gs = pick_graphs(rng)
        procs, n = workload(rng, lambda: q_op(rng, gs), nproc=(1, 4), nthr=(1, 3))
        return {"fs": rng.choice(FILLW), "rounds": [{"procs": procs, "plan": sched(rng, n, 60 * n)}], "after": [[{"k": "q", "g": g, "s": 0, "q": ["get"]} for g in sorted(set(gs))]] if rng.random() < .3 else []}

    def judge(self, case, ctx, stats):
        rec, v = self.run(case, ctx, stats)
        return v or self.exceptions(rec) or self.registers(case, ctx, rec, stats)


class C11(CacheProp):
    id = "C11"
    cases = {"quick": 6000, "thorough": 150000}
    wall = {"quick": 75, "thorough": 2400}
    assumptions = CacheProp.assumptions + ["a crash may cut the write it hits at any byte; what was written before stays visible (loss of unwritten data is C16)"]

    def gen(self, rng, i, tier):
        if rng.random() < .12:
            return self.loop(rng)
        gs = pick_graphs(rng)
        upd = rng.random() < .6
        pay = [0]

        def mk():
            if upd and rng.random() < .3:
                pay[0] += 1
                return {"k": "update", "g": rng.choice(gs), "s": 0, "pay": pay[0]}
            return q_op(rng, gs, bic=not upd)
        prefix = [{"k": "update", "g": g, "s": rng.choice((0, 0, 1)), "pay": 10 + g} for g in gs if rng.random() < .5]
        rounds = []
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            procs, n = workload(rng, mk, nproc=(1, 4), nthr=(1, 2), nops=(1, 2), maxtasks=5)
            plan = sched(rng, n, 60 * n)
            cr = rng.sample(range(len(procs)), rng.randint(1, min(len(procs), 3)))
            base = 20 * len(rounds)
            plan["crashes"] = [[base + c, rng.randint(1, 20 * sum(map(len, procs[c]["threads"])) + 4), rng.choice((0, 0, .001, .3, .7, .999))] for c in cr]
            rounds.append({"procs": procs, "plan": plan})
        return {"fs": rng.choice(FILLW), "prefix": prefix, "rounds": rounds, "after": after_reads(rng, gs)}

    def loop(self, rng):
        """many processes die one after the other, each with an entry of its own"""
        n = rng.choice((10, 14))
        g = rng.choice((11, 0, 14))
        rounds = []
        for j in range(n):
            op = {"k": "q", "g": g, "s": 200 + j, "q": ["clique", 2] if rng.random() < .7 else ["bic", 1, 1]}
            rounds.append({"procs": [{"threads": [[op]]}], "plan": {"mode": "seq", "crashes": [[20 * j, rng.randint(5, 26), rng.choice((0, .5))]]}})
        return {"fs": rng.choice((96, 99, 100, 100)), "rounds": rounds, "after": [[{"k": "q", "g": 1, "s": 0, "q": ["clique", 2]}, {"k": "q", "g": 1, "s": 0, "q": ["bic", 1, 1]}], [{"k": "q", "g": g, "s": 200, "q": ["clique", 2]}]]}

    def judge(self, case, ctx, stats):
        rec, v = self.run(case, ctx, stats)
        return v or self.exceptions(rec) or self.registers(case, ctx, rec, stats) or self.bounds(rec)


ERRS = ("EIO", "ENOSPC", "EMFILE", "ENFILE", "EDQUOT", "shortw", "short", "ENOLCK", "EROFS")


class C12(CacheProp):
    id = "C12"
    cases = {"quick": 6000, "thorough": 150000}
    wall = {"quick": 75, "thorough": 2400}

    def gen(self, rng, i, tier):
        gs = pick_graphs(rng)
        upd = rng.random() < .5
        pay = [0]

        def mk():
            if upd and rng.random() < .25:
                pay[0] += 1
                return {"k": "update", "g": rng.choice(gs), "s": 0, "pay": pay[0]}
            return q_op(rng, gs, bic=not upd)
        prefix = [{"k": "update", "g": g, "s": rng.choice((0, 0, 1)), "pay": 10 + g} for g in gs if rng.random() < .5]
        rounds = []
        for _ in range(rng.choice((1, 1, 2))):
            procs, n = workload(rng, mk, nproc=(1, 3), nthr=(1, 2), nops=(1, 3), maxtasks=4)
            plan = sched(rng, n, 60 * n)
            plan.setdefault("stalls", [])
            r = rng.random()
            if r < .7:
                plan["errs"] = [[rng.randrange(n), rng.randint(1, 45), rng.choice(ERRS)] for _ in range(rng.choice((1, 1, 1, 2, 4)))]
            elif r < .9:
                a = rng.randint(1, 40 * n)
                plan[rng.choice(("full", "full", "nofd"))] = [a, a + rng.choice((1, 5, 20, 100, 1000))]
            else:     # errors all over the place for one task
                t = rng.randrange(n)
                plan["errs"] = [[t, k, rng.choice(ERRS)] for k in range(1, 60) if rng.random() < .4]
            rounds.append({"procs": procs, "plan": plan})
        return {"fs": rng.choice(FILLW), "prefix": prefix, "rounds": rounds, "after": after_reads(rng, gs)}

    def judge(self, case, ctx, stats):
        rec, v = self.run(case, ctx, stats)
        if v:
            return v
        return (self.exceptions(rec, lambda o: o["faults"] and (o["oserr"] or (o["lockerr"] and any(f.startswith(("lock", "close")) for f in o["faults"]))))
                or self.registers(case, ctx, rec, stats) or self.bounds(rec))


class C13(CacheProp):
    id = "C13"
    cases = {"quick": 900, "thorough": 30000}
    wall = {"quick": 75, "thorough": 2400}

    def gen(self, rng, i, tier):
        """a stored entry is used, then n other entries are; with concurrent users, crashes and errors in the middle"""
        x = rng.choice((1, 3, 6, 8))
        other = {3: 4, 4: 3, 6: 7}.get(x, 0) if rng.random() < .5 else 0
        n = rng.choice((5, 60, 90, 97, 98, 99, 99, 99, 100, 105, 130))
        prefix = [{"k": "update", "g": x, "s": 0, "pay": 3}]
        if rng.random() < .4:          # other entries first, then a use only
            prefix.append({"k": "times", "g": 11, "s": 1000, "n": rng.choice((3, 30, 60, 90)), "q": ["clique", 2]})
            prefix.append({"k": "q", "g": x, "s": 0, "q": ["clique", 2]})
        procs, left, s = [], n, 2000
        bic = rng.random() < .15       # uses of the other kind must not matter
        np = rng.choice((1, 1, 2, 3, 4))
        for j in range(np):
            k = left if j == np - 1 else rng.randint(0, left)
            left -= k
            ops = []
            while k:
                c = rng.randint(1, k)
                ops.append({"k": "times", "g": rng.choice((11, 11, 0)), "s": s, "n": c, "q": ["clique", 2] if not bic else ["bic", 1, 1]})
                s += c
                k -= c
                if rng.random() < .2:
                    ops.append({"k": "q", "g": rng.choice((11, 0)), "s": rng.randrange(2000, s), "q": ["clique", 2]})
                if rng.random() < .15 and other:
                    ops.append({"k": "q", "g": other, "s": 0, "q": ["clique", 1]})
            procs.append({"threads": [ops]})
        plan = {"sseed": rng.randrange(1 << 30), "psw": rng.choice((.01, .1, .4)), "cap": 400000}
        r = rng.random()
        if r < .2:
            plan["crashes"] = [[rng.randrange(np), rng.randint(1, 25 * max(1, n) // np), rng.choice((0, .5))]]
        elif r < .5:
            plan["errs"] = [[rng.randrange(np), rng.randint(1, 20 * max(1, n) // np), rng.choice(ERRS)] for _ in range(rng.randint(1, 3))]
        after = [[{"k": "q", "g": x, "s": 0, "q": ["get"]}, {"k": "q", "g": 0, "s": 77, "q": ["bic", 1, 1]}]]
        return {"fs": rng.choice((-1, 0, 50, 98, 99, 100, 104)), "x": x, "prefix": prefix, "rounds": [{"procs": procs, "plan": plan}], "after": after}

    def judge(self, case, ctx, stats):
        rec, v = self.run(case, ctx, stats)
        if v:
            return v
        v = self.exceptions(rec, lambda o: o["faults"] and (o["oserr"] or o["lockerr"]))
        if v:
            return v
        x = case["x"]
        used = set()
        for op in case["prefix"]:
            if op["k"] == "q" and op["g"] == x:
                used = set()
            elif op["k"] == "times":
                used |= {(op["g"], op["s"] + j) for j in range(op["n"])}
        for o in rec["ops"]:
            op = o["op"]
            if o["phase"] == "after":
                continue
            q = op["q"][0]
            if q in BICLIQUE:
                continue
            used |= {(op["g"], op["s"] + j) for j in range(op.get("n", 1))}
        o = [o for o in rec["ops"] if o["phase"] == "after" and o["op"]["g"] == x][0]
        # entries whose files coincide are used together
        st = ctx.states_of(x, 0, {None, 3}, ("get",), o["value"])
        stats.add("probe:kept" if 3 in st else "probe:evicted")
        if not st:
            return Violation("wrong_answer", "the entry that was stored has changed")
        if 3 not in st and len(used) < 100:
            return Violation("evicted", "an entry was evicted although only %d others had been used since" % len(used))
        return self.bounds(rec)


class C14(CacheProp):
    id = "C14"
    cases = {"quick": 6000, "thorough": 150000}
    wall = {"quick": 75, "thorough": 2400}

    def gen(self, rng, i, tier):
        gs = pick_graphs(rng)
        pay = [0]
        r = rng.random()
        tr = r < .3
        to = [50]
        keep = rng.choice((0, 0, .5, .9))       # of the updates, through objects that live on
        nd = [0 if rng.random() < .5 else 3]    # direct insertions
        few = rng.random() < .4
        if rng.random() < .12:
            return self.gen_shared(rng)
        errs = rng.random() < .35               # disk errors
        if errs:
            keep = rng.choice((.5, .9))
        toggle = not tr and rng.random() < .2   # everybody stores one of two contents, again and again
        if toggle:
            gs, nd, keep, few = gs[:1], [0], 1, True

        def mk():
            if tr and rng.random() < .35:
                to[0] += rng.choice((0, 1))
                return {"k": "transfer", "g": rng.choice(gs), "s": rng.choice((0, 1)), "to": to[0], "sparse": rng.random() < .5, "compress": rng.random() < .5, "warm": rng.random() < .3}
            if rng.random() < (.75 if toggle else .4) and not tr:
                op = {"g": rng.choice(gs), "s": rng.choice((0, 0, 1))}
                if few:
                    op["s"] = 0
                if nd[0] and rng.random() < .4:
                    nd[0] -= 1
                    op.update(k="direct", cand=rng.randrange(40))
                else:
                    pay[0] += 1
                    op.update(k="update", pay=rng.randint(1, 2) if few else pay[0])
                    op["as"] = rng.choice((None, None, "list", "bytes"))
                if rng.random() < keep:
                    op["o"] = 0 if toggle else rng.choice((0, 0, 1))
                    if rng.random() < .2:
                        op.update(o=op["o"] + 2, shared=1)
                    elif rng.random() < (.4 if errs else .2):
                        op["mem"] = 1
                return op
            return q_op(rng, gs, kept=rng.random() < .5, bic=False, seeds=(0, 0, 1) if not tr else (0, 1, 50, 51, 52))
        prefix = [{"k": "update", "g": g, "s": rng.choice((0, 0, 1)), "pay": 10 + j} for j, g in enumerate(gs) if rng.random() < .4]
        procs, n = workload(rng, mk, nproc=(1, 4), nthr=(1, 2), nops=(2, 4) if toggle else (1, 3), maxtasks=4 if toggle else 5)
        plan = sched(rng, n, 60 * n)
        if errs:
            plan["errs"] = [[rng.randrange(n), rng.randint(1, 80), rng.choice(ERRS)] for _ in range(rng.choice((1, 1, 2, 3)))]
        after = after_reads(rng, gs)
        if tr:
            for g in sorted(set(gs)):
                after.append([{"k": "q", "g": g, "s": s, "q": q} for s in range(50, to[0] + 1) for q in (["get"], ["clique", 3], ["largest"], ["bylen", rng.randint(1, 3)])])
        return {"fs": rng.choice(FILLW), "prefix": prefix, "rounds": [{"procs": procs, "plan": plan}], "after": after}

    def gen_shared(self, rng):
        """threads that share one object store cliques, in memory and on disk; when all is quiet one more is written"""
        g = rng.choice(pick_graphs(rng))
        op = lambda: {"k": "direct", "g": g, "s": 0, "o": 2, "shared": 1, "cand": rng.randrange(40)}
        threads = [[dict(op(), **({"mem": 1} if rng.random() < .6 else {})) for _ in range(rng.randint(1, 4))] for _ in range(rng.choice((1, 2, 2, 3)))]
        n = len(threads)
        plan = sched(rng, n, 60 * n)
        if rng.random() < .4:
            plan["errs"] = [[rng.randrange(n), rng.randint(1, 60), rng.choice(ERRS)] for _ in range(rng.choice((1, 2)))]
        threads[0] += [{"k": "pause", "g": g, "d": 60}, dict(op(), last=1)]
        prefix = [{"k": "update", "g": g, "s": 0, "pay": 10}] if rng.random() < .5 else []
        return {"fs": -1, "kind": "shared", "prefix": prefix, "rounds": [{"procs": [{"threads": threads}], "plan": plan}], "after": [[{"k": "q", "g": g, "s": 0, "q": ["get"]}]]}

    def judge(self, case, ctx, stats):
        rec, v = self.run(case, ctx, stats)
        v = v or self.exceptions(rec, lambda o: o["faults"] and (o["oserr"] or (o["lockerr"] and any(f.startswith(("lock", "close")) for f in o["faults"]))))
        if v or case.get("kind") != "shared":
            return v or self.registers(case, ctx, rec, stats)
        ops = [o for o in rec["ops"] if o["op"]["k"] == "direct"]
        last = next((o for o in ops if o["op"].get("last")), None)
        if last is None or rec["ops"][-1]["op"]["k"] != "q" or last["status"] != "ok" or any(o["end"] is None or o["end"] > last["start"] for o in ops if o is not last):
            return None
        have = {n: e for n, e in rec["ops"][-1]["value"]}
        cand, must = {}, set()
        for o in ops:
            e = ctx.candidate(o["op"]["g"], o["op"]["cand"])
            cand.setdefault(len(e), set()).add(tuple(sorted(tuple(sorted(c)) for c in e)))
            if o["status"] == "ok":
                must.add(len(e))
        stats.add("answers_checked")
        stats.add("probe:shared_object_written")
        for n in sorted(must):
            if tuple(sorted(tuple(sorted(c)) for c in have.get(n, ()))) not in cand[n]:
                return Violation("lost", "a clique of %d chains was stored in an object that has been written since; what is on disk for that size is another" % n, {"on disk": have.get(n), "stored": sorted(cand[n])})
        return None


def quality(qf, e):
    f = QUALITY[qf]
    return -max(map(len, e)) if f is None else f(e)


class C15(CacheProp):
    id = "C15"
    cases = {"quick": 5000, "thorough": 120000}
    wall = {"quick": 75, "thorough": 2400}

    def gen(self, rng, i, tier):
        gs = [rng.choice((1, 3, 5, 8, 11, 12, 13, 2, 16, 17))] if rng.random() < .6 else list(rng.choice(COLLIDE))
        qf = rng.choice((None, None, "total", "default"))
        slow = rng.random() < .12
        stale = rng.random() < .25          # all work with objects that have read the cache early
        if stale:
            gs = gs[:1]
            slow = False

        def mk():
            g = rng.choice(gs)
            r = rng.random()
            if stale:
                return {"k": "insert", "g": g, "s": 0, "cand": rng.randrange(40), "qf": qf, "o": 0} if r < .8 else {"k": "q", "g": g, "s": 0, "q": ["get"]}
            if r < .45:
                op = {"k": "insert", "g": g, "s": 0, "cand": rng.randrange(40), "qf": qf}
            elif r < .65:
                op = {"k": "merge", "g": g, "s": 0, "from": rng.choice((1, 2, 3)), "qf": qf}
            elif r < .75 and slow:
                op = {"k": "mine", "g": g, "s": 0, "qf": qf, "reg": rng.random() < .5, "seeds": rng.choice((0, 1, 2)), "hb": rng.choice((2, 3, 4)), "rs": rng.randrange(100), "reread": 1}
            else:
                return {"k": "q", "g": g, "s": 0, "q": ["get"]}
            if op["k"] != "mine" and rng.random() < .3:
                op["o"] = rng.randint(0, 1)
                if rng.random() < .3:
                    op.update(o=op["o"] + 2, shared=1)
            return op
        prefix = [{"k": "poor", "g": g, "s": 0, "pay": rng.choice((1, 4, 7)) if stale else rng.randrange(9)} for g in gs if rng.random() < (.9 if stale else .7)]
        for g in gs:
            if rng.random() < .3:
                prefix.append({"k": "insert", "g": g, "s": 0, "cand": rng.randrange(40), "qf": qf})
        rounds = []
        for _ in range(rng.choice((1, 1, 2))):
            procs, n = workload(rng, mk, nproc=(1, 3), nthr=(1, 2), nops=(1, 3), maxtasks=4)
            if stale:
                for p in procs:
                    for t in p["threads"]:
                        t.insert(0, {"k": "q", "g": gs[0], "s": 0, "q": ["get"], "o": 0})
            plan = sched(rng, n, 60 * n)
            r = rng.random()
            if r < .25:
                c = rng.randrange(len(procs))
                plan["crashes"] = [[20 * len(rounds) + c, rng.randint(1, 25 * sum(map(len, procs[c]["threads"])) + 4), rng.choice((0, .5, .99))]]
            elif r < .45:
                plan["errs"] = [[rng.randrange(n), rng.randint(1, 60), rng.choice(ERRS)] for _ in range(rng.choice((1, 2)))]
            rounds.append({"procs": procs, "plan": plan})
        after = [[{"k": "q", "g": g, "s": 0, "q": q} for g in sorted(set(gs)) for q in (["get"], ["bylen", 1], ["bylen", 2], ["bylen", 3], ["bylen", 4])]]
        return {"fs": rng.choice((-1, 0, 0, 99, 100)), "qf": qf, "prefix": prefix, "rounds": rounds, "after": after}

    def judge(self, case, ctx, stats):
        rec, v = self.run(case, ctx, stats)
        if v:
            return v
        v = self.exceptions(rec, lambda o: o["faults"] and (o["oserr"] or (o["lockerr"] and any(f.startswith(("lock", "close")) for f in o["faults"]))))
        if v:
            return v
        qf = case["qf"]
        lower = {}      # identity -> [(time from which it is promised, size, quality, why)]

        def promise(key, t, sizes, why):
            lower.setdefault(key, []).extend((t, n, quality(qf, e), why) for n, e in sizes.items() if n and e)

        def cand(g, k):
            c = sorted(ctx.candidate(g, k), key=len)
            return {n: c[:n] for n in range(1, len(c) + 1)}
        pre = {}
        for op in case["prefix"]:
            key = ctx.ident(op["g"], 0)
            if op["k"] == "poor":
                promise(key, -1, ctx.poor(op["g"], op["pay"]), "was stored before")
                pre[key] = 1
            elif op["k"] == "insert":
                promise(key, -1, cand(op["g"], op["cand"]), "was inserted before")
                pre[key] = 1
        for o in rec["ops"]:
            op = o["op"]
            if o["status"] != "ok":
                continue
            key = ctx.ident(op["g"], op.get("s", 0))
            if op["k"] == "insert":
                promise(key, o["end"], cand(op["g"], op["cand"]), "inserted by process %d" % o["proc"])
            elif op["k"] == "q" and op["q"][0] == "bylen":
                bad = ctx.valid(op["g"], tuple(op["q"]), o["value"])
                if bad:
                    return Violation("invalid", "stored cliques are invalid: %s" % bad, {"op": op})
            elif op["k"] in ("merge", "q", "mine"):
                bad = ctx.valid(op["g"], ("get",), o["value"])
                if bad:
                    return Violation("invalid", "stored cliques are invalid: %s" % bad, {"op": op})
                why = {"merge": "merged by process %d", "q": "read by process %d", "mine": "mined by process %d"}[op["k"]] % o["proc"]
                promise(key, o["end"], {n: e for n, e in o["value"]}, why)
                if op["k"] == "merge" and ctx.ident(op["g"], op["from"]) != key:
                    # what was merged is that of an isolated computation for the other seed
                    if view(("get",), o["value"]) != view(("get",), tuple(ctx.base(op["g"], op["from"]).items())):
                        return Violation("wrong_answer", "the cache merged from was altered")
        for o in rec["ops"]:
            op = o["op"]
            if o["status"] != "ok" or op["k"] != "q":
                continue
            key = ctx.ident(op["g"], op.get("s", 0))
            if op["q"][0] == "bylen":
                # largest within a chain length: as large as what is promised by size, if chains were ever as long as that
                l, old = op["q"][1], [(-q, n, why) for t, n, q, why in lower.get(key, ()) if t < o["start"]] if qf is None else []
                if max((c for c, n, why in old), default=0) >= l:
                    stats.add("answers_checked")
                    for c, n, why in old:
                        if c <= l and n > len(o["value"]):
                            return Violation("worse", "the largest clique with chains up to %d has size %d, though one of size %d %s" % (l, len(o["value"]), n, why), {"read_by": [o["phase"], o["proc"]]})
                continue
            have = {n: quality(qf, e) for n, e in o["value"] if n and e}
            stats.add("answers_checked")
            for t, n, q, why in lower.get(key, ()):
                if t >= o["start"]:
                    continue
                if n not in have:
                    return Violation("lost", "the clique of size %d that %s is gone" % (n, why), {"read_by": [o["phase"], o["proc"]], "has": sorted(have)})
                if have[n] < q:
                    return Violation("worse", "size %d has quality %r on disk, though %r %s" % (n, have[n], q, why), {"read_by": [o["phase"], o["proc"]]})
        return None


class C16(CacheProp):
    id = "C16"
    cases = {"quick": 6000, "thorough": 150000}
    wall = {"quick": 75, "thorough": 2400}
    stubs = CacheProp.stubs + ["loss of power: all processes stop; of data written since the last fsync of the file any part survives, of directory updates since the last fsync of the directory a prefix or any subset"]

    def gen(self, rng, i, tier):
        gs = pick_graphs(rng)
        upd = rng.random() < .5
        pay = [0]

        def mk():
            if upd and rng.random() < .3:
                pay[0] += 1
                return {"k": "update", "g": rng.choice(gs), "s": 0, "pay": pay[0]}
            return q_op(rng, gs, bic=not upd)
        rounds = []
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            procs, n = workload(rng, mk, nproc=(1, 3), nthr=(1, 2), nops=(1, 3), maxtasks=4)
            plan = sched(rng, n, 60 * n)
            plan["power"] = rng.randint(2, 22 * sum(len(t) for p in procs for t in p["threads"]) + 4)
            plan["pseed"] = rng.randrange(1 << 30)
            plan["prefix"] = rng.random() < .5
            rounds.append({"procs": procs, "plan": plan})
        prefix = [{"k": "update", "g": g, "s": 0, "pay": 10 + g} for g in gs if rng.random() < .4]
        return {"fs": rng.choice(FILLW), "prefix": prefix, "rounds": rounds, "after": after_reads(rng, gs)}

    def judge(self, case, ctx, stats):
        rec, v = self.run(case, ctx, stats)
        return v or self.exceptions(rec) or self.registers(case, ctx, rec, stats, power=True)


CACHE_PROPS = {c.id: c for c in (C10, C11, C12, C13, C14, C15, C16)}
