"""C17 and C18: layout-aware embedding and the searches for many embeddings, whose phases take the simulated time
they are told to take (pysim_apps.py)"""
from core import Prop, Violation, Stats
from esim import shrink_list, components
from api_props import Ctx, ApiRef, gen_api, names, bad, ans, pick, API_REAL, API_STUBS, BUSES
import pybuild
from psim import build_preload

S9 = 10 ** 9


class App(Prop):
    real = API_REAL
    stubs = API_STUBS

    def build(self):
        pybuild.build_package()
        build_preload()

    def context(self):
        return Ctx(None)

    def close(self, ctx):
        ctx.close()


def as_nx(p):
    """both graphs as networkx graphs without loops"""
    for side, form, x in (("S", "sform", "sx"), ("T", "tform", "tx")):
        if p[form] not in ("graph", "nx"):
            lone = [a for a, b in p[side] if a == b]
            rest = [e for e in p[side] if e[0] != e[1]]
            if not rest:
                return False
            touched = {v for e in rest for v in e}
            p[side], p[x] = rest, [v for v in lone if v not in touched]
        elif any(a == b for a, b in p[side]):
            return False
        p[form] = "nx"
    return True


# ------------------------------------------------------------------ C17
class C17(App):
    id = "C17"
    rule = ("case: one problem with layout and placement functions (the package's and the caller's); a run in no time, then runs in which the phases take chosen parts of the time limit, or more than it, "
            "with clock steps that put the end of the search on either side of it. non-trivial: distinct (problem, durations, limit, outcome) with a limit and a phase that took time")
    cases = {"quick": 2600, "thorough": 60000}
    wall = {"quick": 75, "thorough": 800}
    assumptions = ["the layout and placement functions are the caller's or the package's; their time is simulated"]

    def gen(self, rng, i, tier):
        bus = None
        while True:
            p = gen_api(rng, big=rng.random() < .6, hints=rng.random() < .3)
            p["tries"] = max(p["tries"], rng.choice([1, 3, 6]))
            p["suspend"] = []
            if as_nx(p):
                break
        nS = 1 + max([x for e in p["S"] for x in e] + list(p["sx"]))
        if rng.random() < .25:
            fam, args = rng.choice([b for b in BUSES if b[0] != "chimera" or b[1] != [1, 1, 4]])
            bus = {"fam": fam, "args": args, "coord": int(rng.random() < .3), "rn": sorted(rng.sample(range(30), rng.choice([0, 0, 2]))), "re": []}
            p["fixed"], p["restrict"], p["initial"] = [], [], []
        hint = rng.choice(["initial_chains", "initial_chains", "suspend_chains"])
        p["initial"] = [] if hint == "initial_chains" else p["initial"]
        p["skip"] = 0
        if hint == "suspend_chains":
            p["restrict"] = []        # a path to a blob may leave the domain
        how = [rng.choice(["own", "own", "own", "dict", "obj", "p_norm", "none"]), rng.choice(["own", "own", "dict", "obj", "p_norm", "none"]),
               rng.choice(["own", "own", "own", "dict", "closest", "closest"] + (["intersection"] * 3 if bus else []))]
        if len(p["T"]) > 60 and how[1] in ("p_norm", "none") and not bus:
            how[1] = "own"
        if len(p["S"]) > 60 and how[0] in ("p_norm", "none"):
            how[0] = "own"
        tn = sorted({x for e in p["T"] for x in e} | set(p["tx"]))
        place = [(v, rng.sample(tn, min(len(tn), rng.choice([1, 1, 2, 3])))) for v in range(nS) if rng.random() < .7]
        if bus:
            place = [(v, [rng.randrange(8)]) for v, _ in place]
        fixed = {v for v, _ in p["fixed"]}
        place = [x for x in place if x[0] not in fixed] if rng.random() < .8 else place
        lay = {"how": how, "dur": [0, 0, 0], "place": place, "hint": hint, "rl": int(rng.random() < .2), "bus": bus, "single": int(how[0] == how[1] == "own" and rng.random() < .3)}
        w = [rng.random() * rng.choice([0, 1, 1]) for _ in range(3)]
        nm = names(rng)
        nm = {k: "tuple" if v == "mixed" else v for k, v in nm.items()}     # p_norm sorts labels
        return dict({"p": p, "lay": lay, "w": w, "phi": [rng.choice([.05, .3, .6, .9, .99]) for _ in range(2)], "over": rng.choice([1, 1, 1.0001, 1.5, 2, 1000]), "t": rng.choice([1, .001, .5, 7, 60, 1000, 1e6]),
                     "tt": rng.choice(["f", "f", "i", "np"]), "r": [rng.random() for _ in range(2)], "raise": rng.randrange(3), "long": rng.choice([500, 999.5, 10 ** 6]), "set": rng.choice([10 ** 15, -10 ** 18, 10 ** 12])}, **nm)

    def judge(self, case, ctx, stats):
        p, lay = case["p"], case["lay"]
        hdr = {"ls": case["ls"], "lt": case["lt"]}

        def run(env, dur=(0, 0, 0), **c):
            o = {"k": "layout", "p": p, "lay": dict(lay, dur=[int(x) for x in dur], **{k: v for k, v in c.items() if k != "direct"}), "env": env}
            if "direct" in c:
                o["direct"] = c["direct"]
            stats.add("fault:slow_phase", sum(x > 0 for x in dur))
            stats.add("fault:wall_clock_step", int("set" in env))
            stats.add("fault:slow_machine", int("step" in env))
            stats.add("fault:layout_raises", int("raise" in c))
            return ctx.api(dict(hdr, ops=[o]), stats)
        r = run({})
        v = bad(r, "an undisturbed call")
        if v:
            return v
        b = r["ok"][0]
        if "place" not in b:
            stats.add("probe:layout_rejected")
            return None
        d = run({}, direct=b["place"])
        v = bad(d, "a direct call")
        if v:
            return v
        d = d["ok"][0]
        if ans(d) != ans(b):
            return Violation("differs", "without a time limit, layout-aware embedding gives something else than a search with the same hints", {"direct": ans(d), "got": ans(b)})
        if "exc" in b:
            stats.add("probe:search_rejected")
            return None
        if lay["bus"]:
            q = dict(p, T=b["T"], tx=[])
        else:
            q = p
        ref = ApiRef(dict(q, initial=[x for x in b["place"] if x[1]]) if lay["hint"] == "initial_chains" else q)
        e = ref.check(b["a"], p["overlap"])
        if e:
            return Violation("invalid", e, {"answer": b["a"]})
        n, npy = b["n"].get("mono", 0), b["n"].get("pymono", 0)
        t = max(1, int(case["t"])) if case["tt"] == "i" else case["t"]
        called = b["calls"]
        ws = [case["w"][i] if i in called else 0 for i in range(3)]
        if called and not sum(ws):
            ws[called[0]] = 1
        tot = sum(ws) or 1

        def durs(ns):
            out = [int(ns * x / tot) for x in ws]
            if called:
                out[called[0]] += int(ns) - sum(out)
            return out
        # without a limit the durations don't matter
        r = run({"set": [1, case["set"]]}, durs(10 ** 15 if called else 0))
        v = bad(r, "a slow call without a limit")
        if v:
            return v
        o = r["ok"][0]
        if ans(o) != ans(b):
            return Violation("limit-imposed", "without a time limit, the answer depends on the time layout and placement take", {"usual": ans(b), "got": ans(o)})
        # nor is the search given less time than it has by itself
        if n > 2:
            k = max(2, pick(case["r"][0], n))
            for gap in (990, 1010):
                env = {"leap": [k, gap * S9]}
                r = run(env, durs(case["long"] * S9 if called else 0))
                d = run(env, direct=b["place"])
                v = bad(r, "a call without a limit that pauses") or bad(d, "a direct call that pauses")
                if v:
                    return v
                if ans(r["ok"][0]) != ans(d["ok"][0]):
                    return Violation("limit-imposed", "without a time limit, layout and placement took %g s and the search paused for %d s; the answer is not the one of a direct search that pauses as long" % (case["long"], gap), {"direct": ans(d["ok"][0]), "got": ans(r["ok"][0]), "at": k})
        # used up
        if called:
            for env in ({}, {"set": [1, case["set"]]}):
                r = run(env, durs(t * S9 * case["over"]), timeout=t, tt=case["tt"])
                v = bad(r, "a call whose limit was used up")
                if v:
                    return v
                o = r["ok"][0]
                if o.get("exc") != "TimeoutError":
                    return Violation("no-timeout-error", "layout and placement took %g s of %g s; the outcome is %s" % (o["spent"] / 1e9, t, o.get("exc") or "an answer"), {"spent": o["spent"], "timeout": t})
                if o["n"].get("mono", 0) or o["logs"]:
                    return Violation("search-started", "layout and placement took %g s of %g s, and a search was started all the same" % (o["spent"] / 1e9, t))
                stats.add("probe:timeout_error")
                stats.see("nontrivial", "over:%s:%s:%s:%s" % (t, case["over"], p["seed"], ws))
            if case["raise"] in called:
                for tk in ({}, {"timeout": t, "tt": case["tt"]}):
                    c = dict(tk)
                    c["raise"] = case["raise"]
                    r = run({}, durs(0), **c)
                    v = bad(r, "a layout function that raises")
                    if v:
                        return v
                    o = r["ok"][0]
                    if o.get("exc") != "Failed" or o["n"].get("mono", 0):
                        return Violation("error-lost", "the layout function raised; the outcome is %s" % (o.get("exc") or "an answer"))
        # enough time: the same answer
        for phi in case["phi"] + [0]:
            ns = t * S9 * (phi if called else 0)
            rem = t * S9 - ns
            step = int(rem * .9 / (n + npy + 80))
            if step >= 1:
                for env in ({"step": step}, {"step": step, "set": [1 + int(case["r"][0] * (n + npy + 4)), case["set"]]}):
                    r = run(env, durs(ns), timeout=t, tt=case["tt"])
                    v = bad(r, "a call in good time")
                    if v:
                        return v
                    o = r["ok"][0]
                    if ans(o) != ans(b):
                        return Violation("early", "layout and placement took %g s, the search needs less than %g s, the limit is %g s; and yet the outcome is not the usual one" % (ns / S9, rem * .9 / S9, t),
                                         {"usual": ans(b), "got": ans(o), "env": env})
                    stats.see("nontrivial", "in:%s:%s:%s:%s" % (t, phi, p["seed"], ws))
            # a pause in the search, that ends before or after the limit
            for x in case["r"]:
                k = pick(x, n)
                slack = 1000 * (n + npy + 100)
                if k < 2 or rem < 3 * slack:
                    continue
                r = run({"leap": [k, int(rem - slack)]}, durs(ns), timeout=t, tt=case["tt"])
                v = bad(r, "a call that pauses")
                if v:
                    return v
                o = r["ok"][0]
                if ans(o) != ans(b):
                    return Violation("early", "layout and placement took %g s, the search paused for %g s, the limit is %g s; and yet the outcome is not the usual one" % (ns / S9, (rem - slack) / S9, t), {"usual": ans(b), "got": ans(o), "at": k})
                r = run({"leap": [k, int(rem + slack)]}, durs(ns), timeout=t, tt=case["tt"])
                v = bad(r, "a call that runs out of time")
                if v:
                    return v
                o = r["ok"][0]
                if "exc" in o:
                    return Violation("raised", "the search raised %s when its time was over" % o["exc"])
                if o["n"].get("mono", 0) > k + 2:
                    return Violation("overrun", "layout and placement took %g s of %g s; the time was over at check %d of %d, and the search went on to check %d" % (ns / S9, t, k, n, o["n"]["mono"]))
                e = ref.check(o["a"], p["overlap"])
                if e:
                    return Violation("invalid", e, {"answer": o["a"]})
                stats.add("probe:search_cut" if ans(o) != ans(b) or o["n"].get("mono", 0) < n else "probe:search_not_cut")
                step = k
                stats.see("nontrivial", "cut:%s:%s:%s:%s:%d" % (t, phi, p["seed"], ws, step))
        if len(stats.samples) < 3:
            stats.sample(case)
        return None

    def shrink(self, case):
        p, lay = case["p"], case["lay"]
        for i in range(3):
            for h in ("own", "dict"):
                if lay["how"][i] != h and not (h == "dict" and lay["how"][i] == "own" and False):
                    yield dict(case, lay=dict(lay, how=[h if j == i else x for j, x in enumerate(lay["how"])]))
                    break
        if lay["place"]:
            for s in shrink_list(lay["place"]):
                yield dict(case, lay=dict(lay, place=s))
        for k, v in (("ls", "int"), ("lt", "int"), ("tt", "f"), ("t", 1)):
            if case[k] != v:
                yield dict(case, **{k: v})
        for k in ("phi", "r"):
            if len(case[k]) > 1:
                for x in case[k]:
                    yield dict(case, **{k: [x]})
        if not p["fixed"] and not p["restrict"] and not p["initial"]:
            for s in shrink_list(p["S"]):
                if s:
                    have = {v for e in s for v in e}
                    yield dict(case, p=dict(p, S=s, sx=sorted((set(p["sx"]) | {v for e in p["S"] for v in e}) - have)))
        for k in ("fixed", "restrict", "initial"):
            if p[k]:
                yield dict(case, p=dict(p, **{k: []}))


# ------------------------------------------------------------------ C18
SHAPES = [(1, []), (2, [(0, 1)]), (2, []), (3, [(0, 1), (1, 2)]), (4, [(0, 1), (1, 2), (2, 3), (0, 3)]), (4, [(0, 1), (0, 2), (0, 3)]), (3, [(0, 1), (1, 2), (0, 2)]), (5, [(0, 1), (1, 2), (2, 3), (3, 4)]),
          (6, [(i, j) for i in range(3) for j in range(3, 6)]), (8, [(i, j) for i in range(4) for j in range(4, 8)]), (4, [(0, 1), (2, 3)]), (5, [(i, j) for i in range(5) for j in range(i)])]
SUB = [("chimera", [2, 2, 4]), ("chimera", [3, 3, 2]), ("chimera", [2, 3, 4]), ("chimera", [4, 4, 2]), ("pegasus", [2]), ("pegasus", [3]), ("zephyr", [2, 2]), ("zephyr", [2, 4]), ("zephyr", [3, 1])]
NODES = {"chimera": lambda m, n, t: m * n * 2 * t, "pegasus": lambda m: 24 * m * (m - 1) - 8 * (m - 1), "zephyr": lambda m, t: (2 * m + 1) * 4 * t * m}


class C18(App):
    id = "C18"
    rule = ("case: one search for many embeddings, with an embedder whose calls take scripted simulated times and find, miss or raise; the run without a limit is the reference, runs with limits, interrupts and failed "
            "allocations are compared with it. non-trivial: distinct (case, limit) in which the limit fell between the first and the last search, or in which a search raised")
    cases = {"quick": 3600, "thorough": 90000}
    wall = {"quick": 75, "thorough": 800}
    stubs = API_STUBS + ["minorminer.subgraph (its solver is absent): a backtracking search", "the embedder: one of three, with scripted durations and outcomes"]
    assumptions = ["the embedder returns valid embeddings or {} or raises"]

    def gen(self, rng, i, tier):
        sub = rng.random() < .55
        S = rng.choice(SHAPES)
        kw = {"max_num_emb": rng.choice([1, 2, 3, 4, 7, 100, None, None, 0, 2.0]), "use_filter": rng.choice([None, True, False]), "seed": rng.choice([None, 3, 11]), "shuffle_all_graphs": rng.choice([None, None, True])}
        o = {"k": "sublattice" if sub else "multi", "S": S, "ls": rng.choice(["int", "str", "tuple"]), "embedder": rng.choice(["sub", "sub", "chains", "mm", "default"]), "kw": kw,
             "unbounded": int(kw["max_num_emb"] is None and rng.random() < .8)}
        if o["embedder"] in ("chains", "mm") :
            kw["one_to_iterable"] = True
        if o["embedder"] == "default":
            o["ekw"] = rng.choice([None, {"seed": 3}])
        else:
            o["ekw"] = rng.choice([None, {"a": 1}])
        if not sub and rng.random() < .5:
            n = rng.randint(1, 24)
            d = rng.choice([.1, .2, .4, .8])
            o["T"] = {"rand": (n, [(a, b) for a in range(n) for b in range(a) if rng.random() < d]), "lab": rng.choice(["int", "str", "tuple"])}
        else:
            fam, args = rng.choice(SUB)
            N = NODES[fam](*args)
            o["T"] = {"fam": fam, "args": args, "coord": int(rng.random() < .25), "rn": sorted(rng.sample(range(N), rng.choice([0, 0, 1, 3, N // 4]))), "re": sorted(rng.sample(range(2 * N), rng.choice([0, 0, 1, 4])))}
        if sub:
            m = args[0]
            x = rng.random()
            if x < .45:
                kw["sublattice_size"] = rng.randint(1, m)
            elif x < .9:
                if fam == "chimera":
                    ta = [rng.randint(1, args[0]), rng.randint(1, args[1]), args[2]]
                elif fam == "pegasus":
                    ta = [rng.randint(2, m)]
                else:
                    ta = [rng.randint(1, m), args[1]]
                tf = fam
                if fam != "chimera" and rng.random() < .2:
                    tf, ta = "chimera", [1, 1, 4 if fam == "pegasus" else args[1]]
                o["tile"] = {"fam": tf, "args": ta, "coord": 0}
                if tf == fam == "chimera" and rng.random() < .25:
                    o["tile"]["same"] = 1
                elif rng.random() < .3:
                    o["tile_emb"] = 1
                kw["use_tile_embedding"] = rng.choice([None, None, True, False])
            kw["shuffle_sublattice_order"] = rng.choice([None, None, True])
            if rng.random() < .2 and not o["T"]["coord"]:
                o["T"]["plain"] = 1
                kw["T_family"] = fam
                kw["T_kwargs"] = {"chimera": lambda a: {"m": a[0], "n": a[1], "t": a[2]}, "pegasus": lambda a: {"m": a[0]}, "zephyr": lambda a: {"m": a[0], "t": a[1]}}[fam](args)
                if rng.random() < .15 and "sublattice_size" in kw:
                    o["T"]["none"] = 1
                    o["T"]["rn"] = o["T"]["re"] = []
        durs = [0, S9, S9, 3 * S9, 10 * S9, 10 ** 6]
        n = rng.randint(1, 6)
        p = rng.choice([0, 0, .2, .5])
        o["script"] = [(rng.choice(durs), "none" if rng.random() < p else "ok") for _ in range(n)]
        if rng.random() < .2:
            o["script"] = [(rng.choice(durs), "ok") for _ in range(rng.randint(0, 3))] + [(rng.choice(durs), rng.choice(["raise", "raise", "interrupt"]))]
        if rng.random() < .35:          # the feasibility check takes its time too
            o["fdur"] = [rng.choice(durs) for _ in range(rng.randint(1, 4))]
        if sub and rng.random() < .5:   # and so does the drawing of a sublattice
            o["mdur"] = [rng.choice(durs) for _ in range(rng.randint(1, 4))]
        return {"o": o, "at": [rng.random() for _ in range(3)], "step": rng.choice([1000, 1000, 10 ** 6, 10 ** 8]), "set": rng.choice([10 ** 15, -10 ** 18])}

    def judge(self, case, ctx, stats):
        o, step = case["o"], case["step"]

        def run(env, **kw):
            stats.add("fault:slow_search", sum(x[0] > 0 for x in o["script"]))
            stats.add("fault:slow_feasibility_check", int(bool(o.get("fdur"))))
            stats.add("fault:slow_sublattice_search", int(bool(o.get("mdur"))))
            stats.add("fault:failing_search", sum(x[1] != "ok" for x in o["script"]))
            stats.add("fault:wall_clock_step", int("set" in env))
            return ctx.api({"ops": [dict(o, kw=dict(o["kw"], **kw), env=dict({"step": step}, **env))]}, stats)
        r = run({"py": 1})
        v = bad(r, "a search without a limit") or self.rules(r["ok"][0], o, None)
        if v:
            return v
        b = r["ok"][0]
        total = b["mono"] - b["start"]
        calls = b["calls"]
        tilemode = bool(o["kw"].get("use_tile_embedding") or o.get("tile_emb") or (o.get("tile") or {}).get("same"))
        if "a" in b and b["a"]["n"] > 1:
            stats.add("probe:many")
        if tilemode:
            stats.add("probe:tile_embedding")
        if b.get("exc") in ("Failed", "KeyboardInterrupt"):
            stats.add("probe:search_raised")
            stats.see("nontrivial", "raise:%s" % o)
        probe = 0
        if "a" in b and not tilemode:
            probe = sum(c["got"] > 0 for c in calls) - b["a"]["n"]
            if o["embedder"] != "default" and probe not in (0, 1):
                return Violation("lost", "%d searches found something, %d embeddings were returned" % (probe + b["a"]["n"], b["a"]["n"]))
        limits = sorted({max(1e-3, f * (total * 1.1) / S9) for f in case["at"]} | {c["at"] / S9 + .5 for c in calls[1:3]} | {a / S9 + .5 for a in b["tried"][1:2]})
        for i, t in enumerate(limits):
            env = {"set": [1 + i, case["set"]]} if i % 2 else {}
            r = run(env, timeout=t)
            v = bad(r, "a search with a limit") or self.rules(r["ok"][0], o, t)
            if v:
                return v
            x = r["ok"][0]
            # seeding a generator from the system's entropy reads the clock
            tol = step * (100 if o["kw"].get("seed") is None and o["kw"].get("shuffle_all_graphs") else 10)
            for c in x["calls"]:
                if c["at"] > t * S9 + tol:
                    return Violation("late", "the limit was %g s; a search was started after %g s" % (t, c["at"] / S9), {"calls": [c["at"] / S9 for c in x["calls"]]})
            if any(a > t * S9 + tol for a in x["tried"]):
                return Violation("late", "the limit was %g s; a sublattice was tried after %g s" % (t, max(x["tried"]) / S9), {"sublattices tried": [a / S9 for a in x["tried"]]})
            if x["tried"] and b["tried"] and b["tried"][-1] > t * S9:
                stats.add("probe:limit_between_sublattices")
            must = [c for c in calls if c["at"] < t * S9 - tol]
            if o["embedder"] != "default":
                if len(x["calls"]) < len(must):
                    return Violation("early", "the limit was %g s; without it %d searches would have been started by then, with it there were %d" % (t, len(must), len(x["calls"])), {"unlimited": [c["at"] / S9 for c in calls]})
                if len(x["calls"]) > len(calls) or any(c["out"] != d["out"] or c["got"] != d["got"] for c, d in zip(x["calls"], calls)):
                    return Violation("differs", "with a limit of %g s the searches differ from those without one" % t)
            if "a" in x and "a" in b:
                if x["a"]["embs"] != b["a"]["embs"][:x["a"]["n"]]:
                    return Violation("differs", "with a limit of %g s the embeddings are not the first of those without one" % t, {"unlimited": b["a"]["embs"], "limited": x["a"]["embs"]})
                if total < t * S9 - tol and x["a"] != b["a"]:
                    return Violation("early", "the limit was %g s; without it the search takes %g s; and yet it gives something else" % (t, total / S9), {"unlimited": b["a"]["n"], "limited": x["a"]["n"]})
            if "a" in x and not tilemode and o["embedder"] != "default":
                found = sum(c["got"] > 0 for c in x["calls"])
                if x["a"]["n"] < found - 1 or ("a" in b and found and x["a"]["n"] != found - probe):
                    return Violation("lost", "%d searches found something before the limit of %g s, %d embeddings were returned" % (found, t, x["a"]["n"]))
            if calls and calls[0]["at"] < t * S9 < calls[-1]["at"]:
                stats.add("probe:limit_between_searches")
                stats.see("nontrivial", "limit:%g:%s" % (t, o))
        # a limit of nothing
        r = run({}, timeout=0)
        v = bad(r, "a search with no time")
        if v:
            return v
        x = r["ok"][0]
        if x["calls"] or x.get("a", {"n": 0})["n"] or "exc" in x:
            return Violation("late", "there was no time, and yet the outcome is %s" % (x.get("exc") or "%d searches, %d embeddings" % (len(x["calls"]), x["a"]["n"])))
        # interrupts and failed allocations
        k = pick(case["at"][0], b["n"].get("pymono", 0))
        if k:
            r = run({"sig": {"pymono": k}})
            v = bad(r, "an interrupted search")
            if v:
                return v
            x = r["ok"][0]
            v = self.rules(x, o, None)
            if v:
                return v
            if x["hits"] and x.get("exc") not in ("KeyboardInterrupt", b.get("exc")):
                return Violation("interrupt-lost", "the search was interrupted, and yet the outcome is %s" % (x.get("exc") or "an answer"))
        n = b["n"].get("py", 0)
        if n:
            for f in case["at"][1:]:
                r = run({"fail": {"py": pick(f, n)}})
                if "interpreter" in r:
                    continue
                v = bad(r, "a search in which an allocation failed")
                if v:
                    return v
                x = r["ok"][0]
                if "changed" in x:
                    return Violation("changed", "an allocation failed, and %s was changed" % x["changed"], {"diff": x.get("diff")})
                if "bad" in x.get("a", {}):
                    return Violation("invalid", "an allocation failed: " + x["a"]["bad"])
        if len(stats.samples) < 3:
            stats.sample(case)
        return None

    def rules(self, x, o, t):
        if "changed" in x:
            return Violation("changed", "%s was changed" % x["changed"])
        if x["given"]:
            return Violation("given", x["given"][0])
        want = [c["out"] for c in x["calls"] if c["out"] not in ("ok", "none")]
        if want:
            if x.get("exc") != {"raise": "Failed", "interrupt": "KeyboardInterrupt"}.get(want[0], want[0]):
                return Violation("error-lost", "a search raised; the outcome is %s" % (x.get("exc") or "an answer"))
            if x["calls"][-1]["out"] != want[0]:
                return Violation("error-lost", "a search raised, and another was started")
        elif x.get("exc") in ("KeyboardInterrupt",):
            return None
        elif "exc" in x and x["exc"] != "ValueError":
            return Violation("raised", "%s: %s" % (x["exc"], x.get("msg")))
        if o.get("ekw") and any(sorted(o["ekw"]) != c["k"] for c in x["calls"]):
            return Violation("given", "embedder_kwargs were not passed on")
        if "a" not in x:
            return None
        if "bad" in x["a"]:
            return Violation("invalid", x["a"]["bad"])
        m = o["kw"].get("max_num_emb")
        if o.get("unbounded"):
            m = x["nT"] // max(1, x["nS"])
        elif m is None:
            m = 1
        if x["a"]["n"] > m:
            return Violation("too-many", "%s embeddings were asked for, %d returned" % (m, x["a"]["n"]))
        return None

    def shrink(self, case):
        o = case["o"]
        for i in range(len(case["at"])):
            if len(case["at"]) > 2:
                yield dict(case, at=case["at"][:i] + case["at"][i + 1:])
        for k in list(o["kw"]):
            if o["kw"][k] is not None and k not in ("one_to_iterable", "sublattice_size", "T_family", "T_kwargs"):
                yield dict(case, o=dict(o, kw=dict(o["kw"], **{k: None}), unbounded=0))
        for s in shrink_list(o["script"]):
            if s:
                yield dict(case, o=dict(o, script=s))
        if o["ls"] != "int":
            yield dict(case, o=dict(o, ls="int"))
        for k in ("rn", "re"):
            if o["T"].get(k):
                yield dict(case, o=dict(o, T=dict(o["T"], **{k: []})))
        for k in ("tile_emb", "ekw", "fdur", "mdur"):
            if o.get(k):
                yield dict(case, o=dict(o, **{k: None}))
        if o["S"][0] > 1 and not (o.get("tile") or {}).get("same"):
            for s in SHAPES:
                if s[0] < o["S"][0]:
                    yield dict(case, o=dict(o, S=s))


APP_PROPS = {c.id: c for c in (C17, C18)}
