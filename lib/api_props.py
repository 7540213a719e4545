"""The Python interface under simulation (pyrun.py, sim/pysim.cpp): the API side of C02-C04 and C06-C08, and C19.
An API case holds one problem and a list of variations of one call or history; see the judge of each."""
import random
from core import Prop, Violation, CheckError, Stats
from esim import Server, Ref, gen_problem, shrink_problem, shrink_list, build_engine, components, rand_chain
import engine_props as ep
import pybuild
from psim import PySim, KINDS, build_preload

API_REAL = ["minorminer/*.py, _minorminer, busclique and rpack extensions (built from the current tree)", "the CPython interpreter, its signal handling and its logging package"]
API_STUBS = ["monotonic and wall clock, getrandom, operator new, malloc as called by the extension, Python's allocator, pthread_create (sim/pysim.cpp)", "the application's log handler, sys.stdout and SIGINT (lib/pyrun.py)"]
SO = {"bus": "/busclique.cpython", "pack": "rpack/_core.cpython", "mm": "/_minorminer.cpython"}


# ------------------------------------------------------------------ problems as the API takes them
def gen_api(rng, big=False, threads=None, hints=True):
    p = gen_problem(rng, big=big, threads=1, hints=hints)
    p["seed"] = rng.choice([0, 1, rng.getrandbits(31), rng.getrandbits(63)])
    p["timeout"] = None
    if p["max_beta"] > 1e200:
        p["max_beta"] = None
    if p["max_fill"] == 1 << 30:
        p["max_fill"] = None
    p["threads"] = threads if threads is not None else rng.choice([1, 1, 1, 2, 3])
    p["skip"] = 0
    p["tup"] = int(rng.random() < .3)
    ref = Ref(p)
    for side, form, x, n in (("S", "sform", "sx", ref.nS), ("T", "tform", "tx", ref.nT)):
        p[form] = rng.choice(["edges", "edges", "graph", "nx", "gen"])
        p[x] = []
        if p[form] in ("graph", "nx"):
            lone = [a for a, b in p[side] if a == b]
            if len(lone) < len(p[side]):
                p[side] = [e for e in p[side] if e[0] != e[1]]
                touched = {v for e in p[side] for v in e}
                p[x] = [v for v in lone if v not in touched]
    if hints and rng.random() < .25:
        big_ = components(ref.nT, p["T"])
        fixed = {v for v, _ in p["fixed"]}
        fq = {q for _, c in p["fixed"] for q in c}
        free = [q for q in big_[0] if q not in fq]
        p["suspend"] = []
        for v in rng.sample(range(ref.nS), rng.randint(1, min(2, ref.nS))):
            if v in fixed or v in dict(p["restrict"]) or len(free) < 6:
                continue
            p["suspend"].append((v, [rng.sample(free, rng.randint(2, min(6, len(free)))) for _ in range(rng.randint(1, 2))]))
    return p


def names(rng):
    ls = rng.choice(["int", "off", "str", "tuple", "mixed", "same"])
    return {"ls": ls, "lt": "same" if ls == "same" else rng.choice(["int", "off", "str", "tuple", "mixed"])}


class ApiRef(Ref):
    def __init__(self, p):
        q = dict(p)
        q["S"] = list(p["S"]) + [(v, v) for v in p.get("sx", ())]
        q["T"] = list(p["T"]) + [(v, v) for v in p.get("tx", ())]
        Ref.__init__(self, q)
        self.initial = p["initial"]
        self.suspend = dict(p.get("suspend", ()))
        self.full = {v for e in q["S"] for v in e}

    def check(self, a, overlap):
        """None, or what is wrong with an answer of find_embedding"""
        if "form" in a:
            return "the answer has the wrong form: " + a["form"]
        if a["tup"] != int(bool(overlap)):
            return "return_overlap=%s but the answer is %s" % (bool(overlap), "a tuple" if a["tup"] else "a dict")
        ch = [[] for _ in range(self.nS)]
        for v, c in a["emb"]:
            if v >= self.nS:
                return "the answer has a chain for something that is not a source node (%d)" % v
            ch[v] = c
        ok = a["rc"] if a["tup"] else bool(a["emb"])
        if ok:
            if {v for v, _ in a["emb"]} != self.full:
                return "success without a chain for %s" % sorted(self.full - {v for v, _ in a["emb"]})
            e = self.valid(ch)
            if e:
                return e
            for v, bl in self.suspend.items():
                for b in bl:
                    if not set(b) & set(ch[v]):
                        return "the chain of %d, %s, does not touch its blob %s" % (v, sorted(ch[v]), sorted(b))
            return None
        if not a["tup"]:
            return None
        return self.constraints(ch)


def ans(r):
    return (r.get("exc"), r.get("a"))


def bad(res, what):
    """violation of what must hold of every run"""
    if "signal" in res:
        return Violation("crash", "%s: the process was ended by signal %d" % (what, res["signal"]))
    if "hang" in res:
        return Violation("hang", "%s: no answer" % what)
    for o in res["ok"]:
        if o.get("exc") == "MemoryError" and not o.get("fired"):
            return Violation("memory", "%s: memory ran out" % what)
    return None


class Ctx:
    def __init__(self, exe):
        self._exe, self._e, self._p = exe, None, None

    @property
    def py(self):
        if self._p is None:
            self._p = PySim()
        return self._p

    def run(self, *a, **k):
        if self._e is None:
            self._e = Server(self._exe)
        return self._e.run(*a, **k)

    def close(self):
        for x in (self._e, self._p):
            if x is not None:
                x.close()

    def api(self, case, stats, limit=30):
        c = dict(case, limit=limit)
        r = self.py.run(c)
        stats.add("runs")
        stats.add("api_runs")
        for o in r.get("ok", ()):
            for k, v in o.get("fired", {}).items():
                stats.add("fault:api_%s" % {"mono": "clock_leap", "new": "operator_new", "py": "python_allocation", "malloc": "malloc", "thread": "pthread_create"}.get(k, k), v)
            if o.get("sig"):
                stats.add("fault:api_sigint", o["sig"])
        if "interpreter" in r:
            stats.add("probe:interpreter_died_of_its_own_allocation")
        if r.get("ok"):
            stats.add("sim_ns", max(0, r["ok"][-1]["mono"] - 10 ** 12))
        return r


def pick(f, n):
    """event number for a position in [0, 1)"""
    return 1 + int(f * n) if n else 0


def api_shrink(case):
    a = case["api"]
    if len(a["at"]) > 1:
        for i in range(len(a["at"])):
            yield dict(case, api=dict(a, at=[a["at"][i]]))
    for k, v in (("ls", "int"), ("lt", "int"), ("sink", "list")):
        if a.get(k, v) != v:
            yield dict(case, api=dict(a, **{k: v, **({"lt": "int"} if k == "ls" else {})}))
    p = a["p"]
    for k, v in (("suspend", []), ("tup", 0), ("sform", "edges"), ("tform", "edges")):
        if p.get(k, v) != v and not (k in ("sform", "tform") and (p["sx"] if k == "sform" else p["tx"])):
            yield dict(case, api=dict(a, p=dict(p, **{k: v})))
    if p.get("suspend") or p.get("sx") or p.get("tx"):
        for i in range(len(p.get("suspend") or ())):
            yield dict(case, api=dict(a, p=dict(p, suspend=p["suspend"][:i] + p["suspend"][i + 1:])))
        return
    base = dict(p, max_beta=p["max_beta"] or 1e300, max_fill=p["max_fill"] or 1 << 30, timeout=1e6)
    for q in shrink_problem(base):
        if q["S"] and q["T"]:
            q = dict(q, timeout=p["timeout"])
            if q["max_beta"] > 1e200:
                q["max_beta"] = None
            if q["max_fill"] == 1 << 30:
                q["max_fill"] = None
            yield dict(case, api=dict(a, p=q))


def env_of(p, **kw):
    return kw


def find(p, **env):
    return {"k": "find", "p": p, "env": env}


class Api:
    """adds API cases to a property of the engine: every `stride`-th case is one"""
    stride = 3

    def build(self):
        super().build()
        pybuild.build_package()
        build_preload()

    def context(self):
        return Ctx(self.exe)

    def gen(self, rng, i, tier):
        if i % self.stride == self.stride - 1:
            return {"api": dict(self.gen_api(rng), **names(rng))}
        return super().gen(rng, i, tier)

    def judge(self, case, ctx, stats):
        if "api" in case:
            a = case["api"]
            hdr = {"ls": a["ls"], "lt": a["lt"], "sink": a.get("sink", "list")}
            stats.add("api_cases")
            return self.judge_api(a, hdr, ctx, stats)
        return super().judge(case, ctx, stats)

    def shrink(self, case):
        if "api" in case:
            return api_shrink(case)
        return super().shrink(case)

    def concretise(self, case, viol, ctx):
        return case if "api" in case else super().concretise(case, viol, ctx)

    def base(self, a, hdr, ctx, stats, ops=None):
        """an undisturbed run: (violation, result)"""
        ops = ops or [find(a["p"], py=1)]
        r = ctx.api(dict(hdr, ops=ops), stats)
        v = bad(r, "an undisturbed run")
        return v, r.get("ok")

    def invalid(self, ref, p, r):
        if "a" not in r:
            return None
        e = ref.check(r["a"], p["overlap"])
        return Violation("invalid", e, {"answer": r["a"]}) if e else None


POS = lambda rng, n: [rng.random() for _ in range(n)]


class C02(Api, ep.C02):
    def gen_api(self, rng):
        p = gen_api(rng, big=rng.random() < .3)
        return {"p": p, "at": POS(rng, 2)}

    def judge_api(self, a, hdr, ctx, stats):
        p, ref = a["p"], ApiRef(a["p"])
        v, b = self.base(a, hdr, ctx, stats)
        if v:
            return v
        if b[0].get("exc") in ("SystemError",):
            return Violation("exception", "%s: %s" % (b[0]["exc"], b[0]["msg"]))
        v = self.invalid(ref, p, b[0])
        if v:
            return v
        if b[0].get("a", {}).get("emb"):
            stats.add("probe:api_embedded")
            if p.get("suspend"):
                stats.add("probe:api_suspended_embedded")
        for f in a["at"]:
            for env in ({"leap": [pick(f, b[0]["n"].get("mono", 0)), 10 ** 16]}, {"sig": {"mono": pick(f, b[0]["n"].get("mono", 0))}}, {"sig": {"new": pick(f, b[0]["n"]["new"])}}, {"fail": {"new": pick(f, b[0]["n"]["new"])}},
                        {"fail": {"py": pick(f, b[0]["n"].get("py", 0))}}):
                q = dict(p, interactive=1) if "sig" in env else p
                r = ctx.api(dict(hdr, ops=[find(q, **env)]), stats)
                if "interpreter" in r:
                    continue
                v = bad(r, "a disturbed run")
                if v:
                    return v
                o = r["ok"][0]
                v = self.invalid(ref, p, o)
                if v:
                    return v
                stats.see("nontrivial", "%s:%s:%s" % (env, b[0]["n"], p["seed"]))
        # the reusable miner gives its answers by other code
        if not p.get("suspend") or True:
            r = ctx.api(dict(hdr, ops=[{"k": "miner", "p": p}, {"k": "m.find"}, {"k": "m.finds", "n": 2}, {"k": "m.find", "env": {"leap": [3, 10 ** 16]}}]), stats)
            v = bad(r, "a miner")
            if v:
                return v
            for o in r["ok"][1:]:
                for x in (o["a"]["list"] if "list" in o.get("a", {}) else [o.get("a")]):
                    if x is None or x.get("skipped"):
                        continue
                    if "list" in o["a"]:
                        if p["overlap"]:
                            continue      # the list does not tell which are valid
                        x = dict(x, tup=0)
                    e = ref.check(x, p["overlap"] if "list" not in o["a"] else 0)
                    if e:
                        return Violation("invalid", "miner: " + e, {"answer": x})
        return None


class C03(Api, ep.C03):
    def gen_api(self, rng):
        p = gen_api(rng, big=rng.random() < .3, hints=rng.random() < .5)
        return {"p": p, "at": POS(rng, 3), "timeout": rng.choice([1, 0.5, 1000, 1000.0, 5, 10 ** 9, "inf", None, None]), "step": rng.choice([100, 10 ** 4, 10 ** 6])}

    def judge_api(self, a, hdr, ctx, stats):
        p, ref = dict(a["p"], timeout=1e300), ApiRef(a["p"])
        v, b = self.base(dict(a, p=p), hdr, ctx, stats)
        if v:
            return v
        b = b[0]
        n = b["n"].get("mono", 0)
        t = a["timeout"]
        limit = 1000 if t is None else 1e30 if t == "inf" else t
        q = dict(a["p"], timeout=float("inf") if t == "inf" else t)
        # below the limit: no difference
        step = a["step"]
        if step * (n + 60) < limit * 1e9 and "exc" not in b:
            for env in ({"step": step}, {"step": step, "set": [pick(a["at"][0], n + 4), 10 ** 15]}, {"step": step, "set": [pick(a["at"][-1], n + 4), -10 ** 18]}):
                r = ctx.api(dict(hdr, ops=[find(q, **env)]), stats)
                v = bad(r, "a slow run")
                if v:
                    return v
                if ans(r["ok"][0]) != ans(b):
                    return Violation("early", "elapsed time %.3g s is below the limit of %s, and yet the answer differs" % (step * n / 1e9, t), {"unlimited": ans(b), "got": ans(r["ok"][0]), "env": env})
                stats.see("nontrivial", "%s:%s:%d:%s" % (env, t, n, p["seed"]))
        if limit > 1e8 or "exc" in b:
            return None
        for f in a["at"]:
            k = pick(f, n)
            if k < 2:
                continue
            r = ctx.api(dict(hdr, ops=[find(q, leap=[k, int(limit * 1e9) + 10 ** 12]), find(p)]), stats)
            v = bad(r, "a run out of time")
            if v:
                return v
            o, o2 = r["ok"]
            if "exc" in o:
                return Violation("raised", "the search raised %s: %s when its time was over" % (o["exc"], o["msg"]), {"at": k})
            if o["n"].get("mono", 0) > k + 2:
                return Violation("overrun", "the time was over at check %d of %d; the search went on to check %d" % (k, n, o["n"]["mono"]), {"env": k})
            v = self.invalid(ref, p, o)
            if v:
                return v
            if ans(o2) != ans(b):
                return Violation("corrupts-later", "a search after one that ran out of time gives a different answer", {"base": ans(b), "got": ans(o2)})
            stats.see("nontrivial", "leap:%s:%s:%d:%s" % (k, t, n, p["seed"]))
        return None


class C04(Api, ep.C04):
    def gen_api(self, rng):
        p = gen_api(rng, big=rng.random() < .3, hints=rng.random() < .5)
        p["verbose"] = rng.choice([0, 1, 2, 3, 3])
        return {"p": p, "at": POS(rng, 2), "log": rng.randint(1, 8), "sink": rng.choice(["list", "list", "list", "raise", "slow"])}

    def judge_api(self, a, hdr, ctx, stats):
        ref = ApiRef(a["p"])
        for inter in (0, 1):
            p = dict(a["p"], interactive=inter)
            kw = {"out": 1} if inter else {}
            v, b = self.base(dict(a, p=p), hdr, ctx, stats, [find(p, py=1, **kw)])
            if v:
                return v
            b = b[0]
            if "exc" in b:
                return None
            n = b["n"]
            plans = [("log", x) for x in {1 + a["log"] % max(1, n.get("log", 0)), n.get("log", 0)} if n.get("log")]
            for f in a["at"]:
                # a handler that raises is reported by the interpreter, which drops an interrupt in the middle of that
                plans += [(k, pick(f, n[k])) for k in (("mono",) if a["sink"] == "raise" else ("mono", "new", "real", "py", "pymono")) if n.get(k)]
            for k, at in plans:
                r = ctx.api(dict(hdr, ops=[find(p, sig={k: at}, **kw), find(p, **kw)]), stats)
                v = bad(r, "an interrupted search")
                if v:
                    return v
                o, o2 = r["ok"]
                what = "the interrupt at %s event %d of %d" % (k, at, n[k])
                if not o.get("sig"):
                    return Violation("nondeterminism", "%s did not come" % what) if 0 else None
                seen = o["at"].get("mono", 0)
                if o["hits"] < 1:
                    return Violation("lost-interrupt", "%s never reached the application's handler" % what, {"run": o})
                if ans(o2) != ans(b):
                    return Violation("corrupts-later", "after %s the next search gives a different answer" % what, {"base": ans(b), "got": ans(o2)})
                last = seen >= n.get("mono", 0)
                if not last and o["n"].get("mono", 0) > seen + 2:
                    return Violation("lost-interrupt", "%s came before check %d of %d; the search went on to check %d" % (what, seen + 1, n["mono"], o["n"]["mono"]), {"run": o})
                if inter:
                    if "exc" in o and not (last or seen == 0):
                        return Violation("interactive-raise", "%s made an interactive search raise %s" % (what, o["exc"]), {"run": o})
                    v = self.invalid(ref, p, o)
                    if v:
                        return v
                    stats.add("probe:api_interactive_returned", int("exc" not in o))
                else:
                    if o.get("exc") not in ("KeyboardInterrupt",) and not o.get("late"):
                        return Violation("lost-interrupt", "%s was swallowed: the search ended with %s" % (what, ans(o)), {"run": o})
                    stats.add("probe:api_raised")
                stats.see("nontrivial", "%s:%s:%d:%s" % (k, at, inter, p["seed"]))
        return None


class C06(Api, ep.C06):
    stride = 4

    def gen_api(self, rng):
        p = gen_api(rng, big=rng.random() < .3)
        return {"p": p, "at": POS(rng, 1), "rand": rng.getrandbits(40), "order": rng.getrandbits(30)}

    def judge_api(self, a, hdr, ctx, stats):
        p = a["p"]
        v, b = self.base(a, hdr, ctx, stats, [find(p)])
        if v:
            return v
        want = ans(b[0])
        other = dict(p, seed=(p["seed"] or 0) ^ 12345, verbose=0)
        loud = dict(p, verbose=3, interactive=0)
        variants = [("other random bytes", {}, [find(p, rand=a["rand"])]),
                    ("another machine speed and wall clock", {}, [find(p, step=50000, set=[2, -10 ** 17])]),
                    ("verbose with a log handler that raises", {"sink": "raise"}, [find(loud)]),
                    ("verbose with a slow log handler", {"sink": "slow"}, [find(loud)]),
                    ("verbose with a log handler out of memory", {"sink": "memory"}, [find(loud)]),
                    ("verbose to the application's stdout", {}, [find(dict(p, verbose=3, interactive=1), out=1)]),
                    ("after other searches", {}, [find(other, rand=a["rand"]), find(dict(other, seed=None), rand=a["rand"]), find(p, rand=3)]),
                    ("after a search that ran out of memory", {}, [find(other, fail={"new": pick(a["at"][0], 400)}), find(p)]),
                    ("after an interrupted search", {}, [find(other, sig={"mono": 3}), find(p)])]
        for what, h, ops in variants:
            r = ctx.api(dict(hdr, ops=ops, **{k: v for k, v in h.items()}) if not h else dict(dict(hdr, ops=ops), **h), stats)
            v = bad(r, what)
            if v:
                return v
            o = r["ok"][-1]
            if ans(o) != want:
                return Violation("seed-dependent", "%s: a different answer for the same seed (%s)" % (what, p["seed"]), {"base": want, "got": ans(o)})
            stats.see("nontrivial", "%s:%s" % (what, p["seed"]))
        return None


def soft(o):
    """violation for what came out of a call whose memory ran out: an ordinary exception, or an answer"""
    if "exc" in o and (not o["err"] or o["exc"] == "SystemError" and not o["fired"].get("py")):
        return Violation("exception", "a failed allocation surfaced as %s: %s" % (o["exc"], o["msg"]), {"run": o})
    return None


class C07(Api, ep.C07):
    stride = 2

    def gen_api(self, rng):
        p = gen_api(rng, big=rng.random() < .15)
        return {"p": p, "at": POS(rng, 4), "n": rng.choice([1, 1, 2, 10 ** 9]), "miner": int(rng.random() < .4), "then": rng.choice(["m.find", "m.find", "m.quick", "m.initial", "m.finds"])}

    def judge_api(self, a, hdr, ctx, stats):
        p, ref = a["p"], ApiRef(a["p"])
        if a["miner"]:
            second = {"m.find": {"k": "m.find"}, "m.quick": {"k": "m.quick", "kw": {}}, "m.finds": {"k": "m.finds", "n": 2}, "m.initial": {"k": "m.initial", "chains": [(v, c) for v, c in p["initial"]]}}[a["then"]]
            ops = [{"k": "miner", "p": p}, second]
        else:
            ops = [find(p)]
        arm = lambda i, env: [dict(o, env=env) if j == i else o for j, o in enumerate(ops)]
        v, b = self.base(a, hdr, ctx, stats, [dict(o, env={"py": 1}) for o in ops] + [find(p)])
        if v:
            return v
        for i in range(len(ops)):
            n = b[i]["n"]
            for f in a["at"]:
                for k in ("new", "py", "thread"):
                    if not n.get(k):
                        continue
                    at = pick(f, n[k])
                    tail = [find(p)] if not a["miner"] else [{"k": "miner", "p": p}, {"k": "m.find"}, find(p)]
                    r = ctx.api(dict(hdr, ops=arm(i, {"fail": {k: at}, "fail_n": min(a["n"], 2) if k == "py" else a["n"]}) + tail), stats)
                    if "interpreter" in r:
                        continue
                    v = bad(r, "%s event %d of %d failed in %s" % (k, at, n[k], ops[i]["k"]))
                    if v:
                        return v
                    o = r["ok"][i]
                    if not o["fired"]:
                        continue
                    v = soft(o)
                    if v:
                        return v
                    if "a" in o and ops[i]["k"] in ("find", "m.find"):
                        v = self.invalid(ref, p, o)
                        if v:
                            return v
                    stats.add("probe:api_exception" if "exc" in o else "probe:api_answer")
                    stats.see("nontrivial", "%s:%d:%d:%s" % (k, at, i, p["seed"]))
                    last = r["ok"][-1]
                    if k == "py" and any(z.get("exc") == "SystemError" for z in r["ok"]):
                        continue
                    if ans(last) != ans(b[-1]):
                        return Violation("corrupts-later", "after %s event %d failed in %s, a search gives a different answer" % (k, at, ops[i]["k"]), {"base": ans(b[-1]), "got": ans(last)})
                    if a["miner"] and i == 1 and ops[1]["k"] == "m.find" and r["ok"][3].get("exc") != b[-1].get("exc"):
                        return Violation("corrupts-later", "a new miner fails after a failure in an old one", {"got": ans(r["ok"][3])})
        return None


def rejected(o):
    return bool(o.get("badkey") or o.get("badval") or o.get("badorder"))


class C08(Api, ep.C08):
    def gen_api(self, rng):
        p = gen_api(rng, big=rng.random() < .2)
        ref = ApiRef(p)
        h = []
        for _ in range(rng.randint(1, 6)):
            x = rng.random()
            if x < .12:
                order = [rng.randrange(ref.nS) for _ in range(rng.randint(0, 3))] + [-1]
                h.append({"k": "m.quick", "kw": {"varorder": order, "clear_first": rng.random() < .5, "local_search": rng.random() < .4}, "badorder": 1})
            elif x < .35:
                h.append({"k": "m.find"})
            elif x < .45:
                h.append({"k": "m.finds", "n": rng.randint(0, 3)})
            elif x < .6:
                h.append({"k": "m.quick", "kw": {"strategy": rng.randint(0, 5), "clear_first": rng.random() < .5, "local_search": rng.random() < .4}})
                if rng.random() < .3 and ref.full:
                    del h[-1]["kw"]["strategy"]
                    h[-1]["kw"]["varorder"] = rng.sample(sorted(ref.full), rng.randint(1, len(ref.full)))
            elif x < .75:
                h.append({"k": "m.initial", "chains": [(v, c) for v, c in p["initial"] if rng.random() < .7]})
            elif x < .85:
                h.append({"k": "m.initial", "chains": [], rng.choice(["badkey"]): ["no such node"]})
            elif x < .92:
                h.append({"k": "m.initial", "chains": [], "badval": [0, "no such node"]})
            else:
                h.append({"k": "m.find", "env": {"leap": [rng.randint(2, 6), 10 ** 16]}})
        return {"p": p, "at": [0], "h": h, "blank": rng.choice([0, 0, 1, 2, 3]), "force": rng.choice([0, 1, 2, 3])}

    def judge_api(self, a, hdr, ctx, stats):
        p, ref = a["p"], ApiRef(a["p"])
        r = ctx.api(dict(hdr, ops=[find(p), {"k": "miner", "p": p}, {"k": "m.find"}]), stats)
        v = bad(r, "a first search")
        if v:
            return v
        one, mk, first = r["ok"]
        if "exc" in mk:
            if mk["exc"] != one.get("exc"):
                return Violation("differs", "find_embedding gives %s, but constructing a miner raises %s" % (ans(one), mk["exc"]))
            return None
        if "exc" not in one and ans(one) != ans(first):
            return Violation("differs", "the first search of a miner gives something else than the one-shot function", {"one-shot": ans(one), "miner": ans(first)})
        mine = [{"k": "miner", "p": p}]
        # a rejected call changes nothing; a list of searches is that many searches; improving is setting and searching
        plain = [o for o in a["h"] if not (rejected(o))]
        wide = []
        for o in plain:
            if o["k"] == "m.finds":
                wide += [{"k": "m.find"}] * o["n"]
            else:
                wide.append(o)
        r1 = ctx.api(dict(hdr, ops=mine + a["h"] + [{"k": "m.find"}]), stats)
        v = bad(r1, "a history")
        if v:
            return v
        for o, x in zip(a["h"], r1["ok"][1:]):
            if (rejected(o)) and "exc" not in x:
                return Violation("accepted", "%s was accepted" % o)
            for y in (x["a"]["list"] if "list" in x.get("a", {}) else [x.get("a")] if o["k"] == "m.find" else []):
                if y is None:
                    continue
                if "list" in x["a"]:
                    if p["overlap"]:
                        continue
                    y = dict(y, tup=0)
                e = ref.check(y, p["overlap"] if "list" not in x["a"] else 0)
                if e and o["k"] != "m.quick":
                    return Violation("invalid", "%s: %s" % (o["k"], e), {"answer": y})
        v = self.quick(ref, p, a["h"], r1["ok"][1:])
        if v:
            return v
        r2 = ctx.api(dict(hdr, ops=mine + wide + [{"k": "m.find"}]), stats)
        v = bad(r2, "a history")
        if v:
            return v
        f1 = {x["exc"] for o, x in zip(a["h"] + [{"k": "m.find"}], r1["ok"][1:]) if "exc" in x and not (rejected(o))}
        f2 = {x["exc"] for x in r2["ok"][1:] if "exc" in x}
        if f1 or f2:
            stats.add("probe:api_history_raised")
            return None if f1 == f2 else Violation("history", "one of two equal histories raises %s, the other %s" % (sorted(f1), sorted(f2)), {"history": a["h"]})
        l1, l2 = [], []
        for o, x in list(zip(a["h"] + [{"k": "m.find"}], r1["ok"][1:])):
            if rejected(o):
                continue
            if o["k"] == "m.finds":
                l1 += [y["emb"] for y in x["a"]["list"]]
            elif o["k"] in ("m.find", "m.quick") and "a" in x:
                l1.append(x["a"].get("emb"))
        i = 1
        for o in plain + [{"k": "m.find"}]:
            if o["k"] == "m.finds":
                for _ in range(o["n"]):
                    y = r2["ok"][i]["a"]
                    i += 1
                    if y["emb"] or y["tup"]:
                        l2.append(y["emb"])
            else:
                if o["k"] in ("m.find", "m.quick") and "a" in r2["ok"][i]:
                    l2.append(r2["ok"][i]["a"].get("emb"))
                i += 1
        if l1 != l2:
            return Violation("history", "the answers of a history differ from those of the same calls made singly and without those that were rejected", {"history": a["h"], "got": l1, "expected": l2})
        stats.see("nontrivial", "%s:%s" % (a["h"], p["seed"]))
        # improving: as documented
        embs = [x["a"]["emb"] for x in r2["ok"][1:] if "emb" in x.get("a", {}) and x["a"]["emb"]][:2]
        embs = [e for e in embs if all(c for _, c in e)]
        if a.get("blank"):
            embs.insert(min(a["blank"] - 1, len(embs)), [])      # no hint at all, not even the one before
        if embs:
            r3 = ctx.api(dict(hdr, ops=mine + [{"k": "m.improve", "embs": embs}]), stats)
            ops = []
            for e in embs:
                ops += [{"k": "m.initial", "chains": e}, {"k": "m.find"}]
            r4 = ctx.api(dict(hdr, ops=mine + ops), stats)
            v = bad(r3, "improving") or bad(r4, "improving step by step")
            if v:
                return v
            x = r3["ok"][1]
            y = [z.get("a", {}).get("emb") for z in r4["ok"][2::2]]
            if "exc" in x:
                if not any("exc" in z for z in r4["ok"]):
                    return Violation("history", "improve_embeddings raises %s: %s, the same steps made singly don't" % (x["exc"], x["msg"]))
            elif [z["emb"] for z in x["a"]["list"]] != y:
                return Violation("history", "improve_embeddings gives something else than setting and searching", {"got": x, "expected": y})
        # searching until there are so many successes: the first ones of searching again and again
        if a.get("force"):
            r5 = ctx.api(dict(hdr, ops=mine + [{"k": "m.find"}] * 10), stats)
            v = bad(r5, "searching ten times")
            if v:
                return v
            found = [x["a"]["emb"] for x in r5["ok"][1:] if x.get("a", {}).get("emb") or x.get("a", {}).get("tup")]
            n = min(a["force"], len(found))
            if n and not any("exc" in x for x in r5["ok"]):
                r6 = ctx.api(dict(hdr, ops=mine + [{"k": "m.finds", "n": n, "force": 1}]), stats)
                v = bad(r6, "searching for %d embeddings" % n)
                if v:
                    return v
                x = r6["ok"][1]
                if "exc" in x or [z["emb"] for z in x["a"]["list"]] != found[:n]:
                    return Violation("history", "find_embeddings(%d, force=True) gives something else than the first %d successes" % (n, n), {"got": x, "expected": found[:n]})
                stats.add("probe:api_forced_past_failures" if [1 for x in r5["ok"][1:n + 1] if not (x["a"]["emb"] or x["a"]["tup"])] else "probe:api_forced")
        return None

    def quick(self, ref, p, h, res):
        for o, x in zip(h, res):
            if o["k"] != "m.quick" or ref.initial:
                return None      # the pass may leave chains of before as they are
            if "a" not in x:
                continue
            if "form" in x["a"]:
                return Violation("invalid", "quickpass: " + x["a"]["form"])
            own = {}
            for v, c in x["a"]["emb"]:
                if v >= ref.nS:
                    return Violation("invalid", "quickpass returned a chain for %d" % v)
                if v not in ref.fixed and not ref.connected(c):
                    return Violation("invalid", "quickpass: the chain of %d is not connected: %s" % (v, c))
                for q in c:
                    if q in own and not (v in ref.fixed and own[q] in ref.fixed):
                        return Violation("invalid", "quickpass: the chains of %d and %d share %d" % (own[q], v, q))
                    own[q] = v
        return None


# ------------------------------------------------------------------ C19
BUSES = [("chimera", [1, 1, 4]), ("chimera", [2, 2, 2]), ("chimera", [2, 3, 4]), ("chimera", [3, 3, 2]), ("pegasus", [2]), ("pegasus", [3]), ("zephyr", [1, 2]), ("zephyr", [1, 4]), ("zephyr", [2, 2])]


class C19(Prop):
    id = "C19"
    rule = ("case: one call of a clique or biclique computation, a graph identification or a packing; an undisturbed run counts its allocations (operator new, malloc, Python's), then "
            "runs in which those at sampled positions fail, each followed by an undisturbed repetition. non-trivial: distinct (call, kind, position) whose failure fired")
    cases = {"quick": 6000, "thorough": 60000}
    wall = {"quick": 75, "thorough": 800}
    real = API_REAL
    stubs = API_STUBS
    assumptions = ["one thread", "a failed allocation of Python itself is placed anywhere in the call, inside the interpreter too"]

    def build(self):
        pybuild.build_package()
        build_preload()

    def context(self):
        return Ctx(None)

    def close(self, ctx):
        ctx.close()

    def gen(self, rng, i, tier):
        if rng.random() < .25:
            n = rng.choice([1, 2, 3, 5, 8, 13])
            kw = {}
            if rng.random() < .3:
                kw["max_width"] = rng.randint(5, 40)
            if rng.random() < .2:
                kw["max_height"] = rng.randint(5, 60)
            o = {"k": "pack", "sizes": [(rng.randint(1, 9), rng.randint(1, 9)) for _ in range(n)], "kw": kw}
        else:
            fam, args = rng.choice(BUSES)
            N = {"chimera": lambda m, n, t: m * n * 2 * t, "pegasus": lambda m: 24 * m * (m - 1) - 8 * (m - 1), "zephyr": lambda m, t: (2 * m + 1) * 4 * t * m}[fam](*args)
            o = {"k": "bus", "fam": fam, "args": args, "coord": int(rng.random() < .4), "s": rng.choice([0, 0, 1, 7]), "rn": sorted(rng.sample(range(N), rng.choice([0, 0, 1, 2]))),
                 "re": sorted(rng.sample(range(2 * N), rng.choice([0, 0, 0, 1, 3]))),
                 "q": rng.choice([["clique", rng.choice([1, 2, 3, 4, 5, 6, 8])], ["ident"], ["cliques"], ["cliques"], ["bicliques"], ["frag"]])}
        return {"o": o, "at": [rng.random() for _ in range(4)], "n": rng.choice([1, 1, 1, 2, 10 ** 9])}

    def judge(self, case, ctx, stats):
        o = dict(case["o"])
        mod = SO["pack"] if o["k"] == "pack" else SO["bus"]
        r = ctx.api({"ops": [dict(o, env={"py": 1, "mod": mod})]}, stats)
        v = bad(r, "an undisturbed call")
        if v:
            return v
        b = r["ok"][0]
        for f in case["at"]:
            for k in ("new", "malloc", "py"):
                n = b["n"].get(k, 0)
                if not n:
                    continue
                at = pick(f, n)
                r = ctx.api({"ops": [dict(o, env={"fail": {k: at}, "fail_n": min(case["n"], 2) if k == "py" else case["n"], "mod": mod}), dict(o)]}, stats)
                if "interpreter" in r:
                    continue
                v = bad(r, "%s event %d of %d failed" % (k, at, n))
                if v:
                    return v
                x, y = r["ok"]
                v = soft(x)
                if v:
                    return v
                if "a" in x and ans(x) != ans(b):
                    return Violation("wrong", "%s event %d of %d failed, and the call returned something else than usual" % (k, at, n), {"usual": ans(b), "got": ans(x)})
                if "a" not in x and "exc" not in x and "a" in b:
                    return Violation("wrong", "%s event %d of %d failed, and the call returned nothing" % (k, at, n), {"usual": ans(b)})
                if k == "py" and y.get("exc") == "SystemError":
                    continue
                if ans(y) != ans(b):
                    return Violation("corrupts-later", "after %s event %d of %d failed, the same call gives something else" % (k, at, n), {"usual": ans(b), "got": ans(y)})
                if x["fired"]:
                    stats.see("nontrivial", "%s:%s:%d:%d" % (o, k, at, case["n"]))
                    stats.add("probe:exception" if "exc" in x else "probe:survived")
        if len(stats.samples) < 3:
            stats.sample(case)
        return None

    def shrink(self, case):
        for i in range(len(case["at"])):
            if len(case["at"]) > 1:
                yield dict(case, at=[case["at"][i]])
        if case["n"] != 1:
            yield dict(case, n=1)
        o = case["o"]
        if o["k"] == "pack":
            for s in shrink_list(o["sizes"]):
                if s:
                    yield dict(case, o=dict(o, sizes=s))
        else:
            for k in ("rn", "re"):
                if o[k]:
                    yield dict(case, o=dict(o, **{k: []}))
            if o["coord"]:
                yield dict(case, o=dict(o, coord=0))


for c in (C02, C03, C04, C06, C07, C08):
    c.real = ep.EngineProp.real + API_REAL
    c.stubs = ep.EngineProp.stubs + API_STUBS
    c.rule = {**{}}.get(c.id) or getattr(ep, c.id).rule + "; every %s case goes through the Python interface instead" % {2: "second", 3: "third", 4: "fourth"}[c.stride]
API_PROPS = {c.id: c for c in (C02, C03, C04, C06, C07, C08, C19)}
