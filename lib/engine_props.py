"""Properties decided by simulator A (the C++ embedding engine)."""
import copy
from esim import *

HOUR = 3600 * 10 ** 9


def single(p, e, **kw):
    return {"env": e, "problems": [p], "callers": [{"p": 0, "ops": [op("find", **kw)]}]}


def multi(p, e, ops):
    return {"env": e, "problems": [p], "callers": [{"p": 0, "ops": ops}]}


def with_(p, **kw):
    q = dict(p)
    q.update(kw)
    return q


def note(stats, r, *ops):
    """non-trivial: the schedule really switched or a fault really fired"""
    if "switches" not in r:
        return      # the run did not finish; its status is judged by the caller
    if r["switches"] or any(r["fired"].values()) or any(o["cancelled"] for c in r["ops"] for o in c):
        stats.see("nontrivial", r["hash"] + ":" + str(r["steps"]))


def strip_case(case):
    return case


def trace_env(e, r):
    f = dict(e)
    f.update(mode="trace", trace=[tuple(x) for x in r["trace"]], stall=0, spurious=0)
    return f


def passes_between(p, o, lo):
    """(from, to) step ranges that end where a pass announces itself, leaving out unusually short ones; in small
    problems the work between two passes counts too much"""
    fixed = {v for v, _ in p["fixed"]}
    if len({(min(e), max(e)) for e in p["S"] if e[0] != e[1] and e[0] not in fixed and e[1] not in fixed}) < 6:
        return []
    at = [lo] + o["pass_at"]
    out = [(a, b) for a, b in zip(at, at[1:]) if a >= lo]
    if not out:
        return []
    mid = sorted(b - a for a, b in out)[len(out) // 2]
    return [(a, b) for a, b in out if 2 * (b - a) >= mid]


class C01(EngineProp):
    id = "C01"
    rule = ("case: one random problem with 2-4 threads, run once under the sequential schedule and under three sampled schedules (random, PCT, synchronisation-point, "
            "round-robin or starvation, with task stalls and spurious wake-ups). non-trivial: distinct schedule hash with at least one context switch or fired fault")
    cases = {"quick": 2600, "thorough": 60000}

    def gen(self, rng, i, tier):
        p = gen_problem(rng, big=rng.random() < .25, threads=rng.choice([2, 2, 3, 4, 5]))
        if rng.random() < .1:
            p["threads"] = rng.choice([8, 16, 31])   # more threads than target nodes at times
        kw = {}
        if rng.random() < .2:
            kw = {rng.choice(["cancel", "late"]): rng.randint(1, 6), "late_ns": 10 ** 16}
        return {"p": p, "kw": kw, "envs": [gen_sched(rng) for _ in range(3)]}

    def judge(self, case, ctx, stats):
        p = case["p"]
        base = ctx.run(single(p, env(), **case["kw"]), stats)
        v = status_violation(base, "sequential schedule")
        if v:
            return v
        ref = outcome(base["ops"][0][0])
        e = check_answer(Ref(p), base["ops"][0][0])
        if e:
            return Violation("invalid", e, short(base["ops"][0][0]))
        if p["threads"] > 1 and base["threads"] == 0 and base["ops"][0][0]["rc"] == 1:
            stats.add("probe:no_threads_used")
        for s in case["envs"]:
            r = ctx.run(single(p, env(**s), **case["kw"]), stats)
            note(stats, r)
            v = status_violation(r, "schedule %s/%s" % (s["mode"], s.get("sseed")))
            if v:
                return v
            o = r["ops"][0][0]
            if outcome(o) != ref:
                return Violation("schedule-dependent", "one schedule gives %s, another %s" % (str(ref)[:300], str(outcome(o))[:300]),
                                 {"sequential": short(base["ops"][0][0]), "other": short(o)})
            stats.add("probe:rc%d" % o["rc"] if not o["exc"] else "probe:exception")
        if len(stats.samples) < 3:
            stats.sample(case)
        return None

    def concretise(self, case, viol, ctx):
        for s in case["envs"]:
            c = dict(case, envs=[s])
            v = self.judge(c, ctx, Stats())
            if v is None or v.cls != viol.cls:
                continue
            r = ctx.run(single(case["p"], env(**s), **case["kw"]))
            t = dict(case, envs=[{k: x for k, x in trace_env(env(**s), r).items() if k in ("mode", "trace")}])
            v = self.judge(t, ctx, Stats())
            return t if v is not None and v.cls == viol.cls else c
        return case

    def shrink(self, case):
        for s in range(len(case["envs"])):
            if len(case["envs"]) > 1:
                yield dict(case, envs=[case["envs"][s]])
        if case["kw"]:
            yield dict(case, kw={})
        if case["envs"] and case["envs"][0]["mode"] == "trace":
            for t in shrink_list(case["envs"][0]["trace"]):
                yield dict(case, envs=[dict(case["envs"][0], trace=t)])
        for p in shrink_problem(case["p"]):
            if p["threads"] > 1:
                yield dict(case, p=p)


class C02(EngineProp):
    id = "C02"
    rule = ("case: one random problem with hints (fixed, initial, restricted chains, isolated and disconnected nodes), run under a sampled schedule with the search stopped "
            "nowhere, by a timeout or by an interrupt at a sampled poll. non-trivial: a stop or a context switch happened")
    cases = {"quick": 8000, "thorough": 250000}

    def gen(self, rng, i, tier):
        p = gen_problem(rng, big=rng.random() < .4, threads=rng.choice([1, 1, 1, 2, 3]))
        if not (p["fixed"] or p["restrict"] or p["initial"]) and rng.random() < .6:
            gen_hints(rng, p)
        if p["initial"] and rng.random() < .3:
            p["skip"] = 1
        if rng.random() < .25:
            gen_odd_hints(rng, p)
        kw = {}
        x = rng.random()
        if x < .3:
            kw = {"late": rng.randint(1, 8), "late_ns": 10 ** 16}
        elif x < .5:
            kw = {"cancel": rng.randint(1, 8)}
            p["interactive"] = 1
        return {"p": p, "kw": kw, "env": gen_sched(rng) if p["threads"] > 1 else {"garbage": rng.choice([0, 255, 0x5a, 4242])}}

    def judge(self, case, ctx, stats):
        r = ctx.run(single(case["p"], env(**case["env"]), **case["kw"]), stats)
        note(stats, r)
        v = status_violation(r, "search")
        if v:
            return v
        o = r["ops"][0][0]
        e = check_answer(Ref(case["p"]), o)
        if e:
            return Violation("invalid", e, short(o))
        stats.add("probe:" + ("exception" if o["exc"] else "success" if o["rc"] else "overlapped" if o["chains"] else "empty"))
        for k in ("fixed", "initial", "restrict"):
            if case["p"][k] and not o["exc"] and o["chains"]:
                stats.add("probe:answer_with_" + k)
        stats.sample(case)
        return None

    def shrink(self, case):
        if case["kw"]:
            yield dict(case, kw={})
        if case["env"]:
            yield dict(case, env={})
        for p in shrink_problem(case["p"]):
            yield dict(case, p=p)


BIG_TIMEOUTS = [1e6, 86400.0, 1e9, 9.3e9, 1e12, 1e15, 1e18, 1e19, 1e30, 1e300, float("inf")]


class C03(EngineProp):
    id = "C03"
    rule = ("case: one problem; an unlimited run fixes the expected answer and the work of every pass; then runs with huge timeouts, with wall-clock steps and drift while the "
            "elapsed time stays below the timeout, and with a deadline placed inside the run by machine speed or by a stall. non-trivial: distinct (deadline position, fault) with a fired clock fault or an expired deadline")
    cases = {"quick": 2600, "thorough": 50000}

    def gen(self, rng, i, tier):
        p = gen_problem(rng, big=rng.random() < .3, threads=rng.choice([1, 1, 1, 2, 3]))
        if rng.random() < .5:
            p["tries"] = rng.choice([2, 3, 5])
        if rng.random() < .4:
            p["ir"] = rng.choice([20, 60, 2 ** 31 - 1])
            p["mni"] = rng.choice([12, 25, 50, 80])     # many passes without improvement are allowed
            if rng.random() < .5:
                p["clp"] = rng.choice([10, 30])
            if rng.random() < .6 and max(max(e) for e in p["S"]) > 3:
                p["T"] = gen_target(rng, False)         # mostly too small: the search goes on until its patience is exhausted
                p["fixed"], p["initial"], p["restrict"] = [], [], []
                p["skip"] = 0
                p["overlap"] = int(rng.random() < .8)   # and its last word is a set of overlapping chains, to be compared
            elif rng.random() < .2:
                p["max_fill"] = rng.choice([1, 2, 2, 3])   # passes may fail
                p["max_beta"] = rng.choice([1.0, 2.0, 10.0])
        c = {"p": p, "huge": rng.sample(BIG_TIMEOUTS, 2), "garbage": rng.choice([0, 255]),
             "jumps": [[rng.random(), rng.choice([-1, 1]) * rng.choice([1, 60, 3600, 86400 * 365]) * 10 ** 9] for _ in range(rng.randint(1, 4))],
             "drift": rng.choice([0, 0, -900000, 500, 10 ** 6]), "slack": rng.choice([1.01, 1.01, 1.3, 2, 100]),
             "late": rng.sample([0, .3, .6, .9, rng.random()], 1 + (i % 3 == 0)),
             "cuts": [{"at": rng.random(), "how": rng.choice(["speed", "stall", "stall"]), "jump": rng.choice([0, 0, -1, 1])} for _ in range(3)],
             "marks": [[0, rng.uniform(.02, .3)], [rng.random(), rng.uniform(.02, .3)]]}
        return c

    def judge(self, case, ctx, stats):
        p = case["p"]
        ref = Ref(p)
        base = ctx.run(single(p, env(garbage=case["garbage"])), stats)
        v = status_violation(base, "unlimited search")
        if v:
            return v
        b = base["ops"][0][0]
        want = outcome(b)
        work = b["step1"] - b["step0"]
        polls = [x[0] for x in b["poll_at"]]
        stats.add("probe:passes", len(polls))

        def same(r, what):
            v = status_violation(r, what)
            if v:
                return v
            o = r["ops"][0][0]
            if outcome(o) != want:
                return Violation("limited", "%s changed the answer: %s instead of %s" % (what, str(outcome(o))[:300], str(want)[:300]), {"unlimited": short(b), "limited": short(o)})
            return None
        for t in case["huge"]:
            r = ctx.run(single(with_(p, timeout=t), env(garbage=case["garbage"])), stats)
            stats.add("fault:huge_timeout")
            v = same(r, "a timeout of %g s that is never reached" % t)
            if v:
                return v
        # one step costs 1 ms: the whole search takes work/1000 s; wall clock misbehaves, elapsed time stays below the limit
        ns = 10 ** 6
        lim = (work * ns + b["polls"] * 1000 + HOUR / 3600) * case["slack"] / 1e9
        # any number of clock reads must fit
        lim += base["clock_reads"] * 4 * 50e-9
        jumps = sorted([int(b["step0"] + f * work), j] for f, j in case["jumps"])
        r = ctx.run(single(with_(p, timeout=lim), env(ns=ns, jump=jumps, drift=case["drift"], garbage=case["garbage"])), stats)
        note(stats, r)
        v = same(r, "a wall clock that jumps while only %.0f%% of the time limit has elapsed" % (100 / case["slack"]))
        if v:
            return v
        # the deadline is fixed when the search proper starts, somewhere within the set-up work: measure that work
        r = ctx.run(multi(p, env(garbage=case["garbage"]), [op("new")]), stats)
        v = status_violation(r, "set-up of the search")
        if v:
            return v
        setup = r["ops"][0][0]
        begin = setup["step1"] - setup["step0"]
        setup = int(begin * 1.25) + 500
        # nearly the whole limit is spent in a stall early on; everything after it happens in the last hundredth of the limit
        for f in case["late"]:
            s = b["step0"] + setup + int(f * max(0, work - setup))
            stall = 200 * work * ns
            lim = (stall + work * ns + b["polls"] * 1000 + HOUR / 3600) * 1.0005 / 1e9 + base["clock_reads"] * 4 * 50e-9
            r = ctx.run(single(with_(p, timeout=lim), env(ns=ns, adv=[[s, stall]], garbage=case["garbage"])), stats)
            note(stats, r)
            v = same(r, "a machine that stalls for most of the time limit and then finishes within it")
            if v:
                return v
        for cut in case["cuts"]:
            s = b["step0"] + 1 + int(cut["at"] * work)
            spread = setup
            if cut["how"] == "stall":
                s = max(s, b["step0"] + setup)
                spread = 0
            nxt = [x for x in polls if x >= s + spread]
            # work between the deadline and the end of the pass it falls into, plus the work of handing the answer back
            if nxt:
                rest = nxt[0] - s
            else:
                rest = b["step1"] - s
            if cut["how"] == "speed":
                e = env(ns=ns, read=0, garbage=case["garbage"])
                q = with_(p, timeout=(s - b["step0"]) * ns / 1e9)
            else:
                e = env(ns=1, read=0, adv=[[s, 10 * HOUR]], garbage=case["garbage"])
                q = with_(p, timeout=float(HOUR / 1e9) if work < HOUR else float(2 * work))
            if cut["jump"]:
                e["jump"] = [[max(1, s - 5), cut["jump"] * 1000 * HOUR]]
            r = ctx.run(single(q, e), stats)
            v = status_violation(r, "search with a deadline")
            if v:
                return v
            o = r["ops"][0][0]
            dead = o["mono0"] + int(q["timeout"] * 1e9)
            late = [x for x in o["poll_at"] if x[1] >= dead]
            # checks within the set-up time of the earliest deadline are ambiguous
            clear = [x for x in o["poll_at"] if x[1] >= dead + spread * ns]
            if late:
                note(stats, r)
                stats.add("fault:deadline_expired")
                stats.see("nontrivial", "%s:%d:%s" % (r["hash"], s, cut["how"]))
            if o["exc"] and outcome(o) != want:
                return Violation("raised", "a search that ran out of time raised %s" % o["exc"], short(o))
            if len(clear) > 1:
                return Violation("late", "%d passes were completed after the time limit (at step %d) had been reached" % (len(clear), s), {"polls": o["poll_at"], "deadline": dead})
            if not late and outcome(o) != want:
                return Violation("early", "the search ended differently although every check happened before the deadline", {"unlimited": short(b), "limited": short(o), "deadline": dead})
            over = o["step1"] - s
            slack = spread
            if nxt and over > rest + slack + 4 * self.tail(base, b) + 20000:
                return Violation("late", "%d units of work after the deadline, at most %d allowed" % (over, rest + slack + 4 * self.tail(base, b) + 20000), {"deadline_step": s})
            # whatever the search regards as a pass: an absolute bound, several times what the costliest pass over this problem takes
            if p["threads"] == 1 and over > 500 * ref.sweep() + spread + 4 * self.tail(base, b) + 20000:
                return Violation("late", "%d units of work after the deadline, one sweep over all source nodes costs less than %d" % (over, 500 * ref.sweep()), {"deadline_step": s})
            e = check_answer(ref, o)
            if e:
                return Violation("invalid", e, short(o))
            if late and o["rc"]:
                stats.add("probe:success_after_deadline")
            if late and not o["rc"] and want[0]:
                stats.add("probe:cut_before_success")
        # no pass begins when the limit was reached well within the one before
        r = ctx.run(single(with_(p, verbose=3), env(garbage=case["garbage"])), stats)
        v = status_violation(r, "unlimited search with messages")
        if v:
            return v
        b3 = r["ops"][0][0]
        ranges = passes_between(p, b3, b3["step0"] + begin)
        for x, f in case["marks"] if ranges else []:
            lo, hi = ranges[int(x * len(ranges))]
            s = max(int(lo + f * (hi - lo)), b3["step0"] + setup)
            if s > lo + .3 * (hi - lo):
                continue
            q = with_(p, verbose=3, timeout=float(HOUR / 1e9) if work < HOUR else float(2 * work))
            r = ctx.run(single(q, env(ns=1, read=0, adv=[[s, 10 * HOUR]], garbage=case["garbage"])), stats)
            v = status_violation(r, "search with a deadline")
            if v:
                return v
            o = r["ops"][0][0]
            note(stats, r)
            stats.add("fault:deadline_expired")
            n = sum(1 for z in o["pass_at"] if z > s)
            if n:
                return Violation("late", "%d passes began after the one in which the time limit was reached (at step %d, the next pass began at %d)" % (n, s, hi), {"passes": o["pass_at"], "polls": o["poll_at"]})
        stats.sample(case)
        return None

    def tail(self, base, b):
        """work after the last poll of the complete run: handing back the answer"""
        return b["step1"] - (b["poll_at"][-1][0] if b["poll_at"] else b["step0"])

    def shrink(self, case):
        for k in ("huge", "jumps", "cuts"):
            for i in range(len(case[k])):
                yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
        if case["drift"]:
            yield dict(case, drift=0)
        for p in shrink_problem(case["p"]):
            yield dict(case, p=p)


class C04(EngineProp):
    id = "C04"
    rule = ("case: one problem; for sampled instants of the search an interrupt arrives (at a memory access inside a pass, or right at a poll), interactive and not; "
            "a search follows in the same process. non-trivial: distinct interrupt position at which the interrupt was delivered")
    cases = {"quick": 1700, "thorough": 60000}

    def gen(self, rng, i, tier):
        p = gen_problem(rng, big=rng.random() < .3, threads=rng.choice([1, 1, 1, 2, 3]))
        if rng.random() < .6:
            p["tries"] = rng.choice([2, 3, 5])
        if rng.random() < .1:
            p["max_fill"] = rng.choice([1, 2, 2, 3])   # passes may fail
            p["max_beta"] = rng.choice([1.0, 2.0, 10.0])
            p["mni"] = rng.choice([5, 12])
        return {"p": p, "at": [rng.random() for _ in range(3)], "sched": gen_sched(rng) if p["threads"] > 1 and rng.random() < .5 else {},
                "marks": [[0, rng.uniform(.02, .3)], [rng.random(), rng.uniform(.02, .3)]]}

    def judge(self, case, ctx, stats):
        p = with_(case["p"], interactive=0)
        ref = Ref(p)
        clean = [op("find"), op("find")]
        base = ctx.run(multi(p, env(), clean), stats)
        v = status_violation(base, "uninterrupted search")
        if v:
            return v
        b, b2 = base["ops"][0]
        work = b["step1"] - b["step0"]
        n = b["polls"]
        for f in case["at"]:
            for inter in (0, 1):
                q = with_(p, interactive=inter)
                s = b["step0"] + 1 + int(f * work)
                k = 1 + sum(1 for x in b["poll_at"] if x[0] < s)
                # schedule variation moves step counts: by poll index when not sequential
                if case["sched"]:
                    r = ctx.run(multi(q, env(**case["sched"]), [op("find", cancel=k), op("find", clean=1)]), stats)
                else:
                    r = ctx.run(multi(q, env(cs=[s]), [op("find"), op("find", clean=1)]), stats)
                v = status_violation(r, "interrupted search")
                if v:
                    return v
                o, o2 = r["ops"][0]
                if k > n:
                    # arrived after the last check: either missed by this search (left pending) or the answer is complete
                    if not case["sched"]:
                        continue
                    if outcome(o) != outcome(b):
                        return Violation("interrupt-unseen", "no interrupt was seen and yet the answer differs", {"base": short(b), "got": short(o)})
                    continue
                note(stats, r)
                stats.see("nontrivial", "%s:%d:%d" % (r["hash"], k, inter))
                if outcome(o2) != outcome(b2):
                    return Violation("corrupts-later", "a search after the interrupted one gives a different answer", {"base": short(b2), "got": short(o2)})
                if o["polls"] > k:
                    return Violation("lost-interrupt", "the search went on for %d more passes after the pass in which the interrupt arrived (pass %d, interactive=%d)" % (o["polls"] - k, k, inter), short(o))
                tail = b["step1"] - (b["poll_at"][-1][0] if b["poll_at"] else b["step0"])
                if not case["sched"]:
                    over = o["step1"] - s
                    rest = b["poll_at"][k - 1][0] - s
                    if over > rest + 4 * tail + 20000:
                        return Violation("slow-interrupt", "%d units of work after the interrupt, %d allowed" % (over, rest + 4 * tail + 20000), short(o))
                if not inter:
                    if not o["exc"]:
                        return Violation("lost-interrupt", "the interrupt was swallowed: the search returned %d" % o["rc"], short(o))
                    if o["exc"] != "find_embedding::ProblemCancelledException":
                        return Violation("interrupt-exception", "the interrupt surfaced as %s" % o["exc"], short(o))
                    stats.add("probe:raised")
                else:
                    if o["exc"]:
                        return Violation("interactive-raise", "an interactive search raised %s" % o["exc"], short(o))
                    e = check_answer(ref, o)
                    if e:
                        return Violation("invalid", e, short(o))
                    # same form, same state as a timeout at the same check
                    t = ctx.run(multi(with_(p, interactive=1), env(**(case["sched"] or {})), [op("find", late=k, late_ns=10 ** 17), op("find", clean=1)]), stats)
                    v = status_violation(t, "timed-out search")
                    if v:
                        return v
                    if outcome(t["ops"][0][0]) != outcome(o):
                        return Violation("interactive-result", "stopping at check %d by interrupt and by timeout give different answers" % k, {"interrupt": short(o), "timeout": short(t["ops"][0][0])})
                    stats.add("probe:returned_rc%d" % o["rc"])
        # no pass begins when the interrupt arrived well within the one before
        r = ctx.run(single(with_(p, verbose=3), env()), stats)
        v = status_violation(r, "uninterrupted search with messages")
        if v:
            return v
        b3 = r["ops"][0][0]
        ranges = passes_between(p, b3, b3["step0"])
        for i, (x, f) in enumerate(case["marks"] if ranges else []):
            lo, hi = ranges[int(x * len(ranges))]
            s = int(lo + f * (hi - lo))
            r = ctx.run(single(with_(p, verbose=3, interactive=i), env(cs=[s])), stats)
            v = status_violation(r, "interrupted search")
            if v:
                return v
            o = r["ops"][0][0]
            note(stats, r)
            n = sum(1 for z in o["pass_at"] if z > s)
            if n:
                return Violation("lost-interrupt", "%d passes began after the one in which the interrupt arrived (at step %d, the next pass began at %d)" % (n, s, hi), {"passes": o["pass_at"], "polls": o["poll_at"]})
        stats.sample(case)
        return None

    def shrink(self, case):
        if len(case["at"]) > 1:
            for i in range(len(case["at"])):
                yield dict(case, at=[case["at"][i]])
        if case["sched"]:
            yield dict(case, sched={})
        for p in shrink_problem(case["p"]):
            yield dict(case, p=p)


class C05(EngineProp):
    id = "C05"
    rule = ("case: one problem; the search is stopped at every check point (all when there are at most 14, a sample otherwise), by timeout and by interrupt, and the sequence of answers "
            "is compared for monotone quality; a valid answer is also fed back as the initial embedding. non-trivial: distinct (problem, cut-off) whose answer was a valid embedding")
    cases = {"quick": 7000, "thorough": 150000}

    def gen(self, rng, i, tier):
        p = gen_problem(rng, big=rng.random() < .4, threads=rng.choice([1, 1, 1, 2]))
        p["clp"] = rng.choice([1, 2, 3, 5])
        p["tries"] = rng.choice([1, 2, 4])
        return {"p": p, "how": rng.choice(["late", "cancel"]), "max": 14, "pick": rng.getrandbits(30), "again": rng.getrandbits(62)}

    def judge(self, case, ctx, stats):
        p = with_(case["p"], interactive=1)
        ref = Ref(p)
        base = ctx.run(single(p, env()), stats)
        v = status_violation(base, "search")
        if v:
            return v
        b = base["ops"][0][0]
        if b["exc"]:
            return None
        e = check_answer(ref, b)
        if e:
            return Violation("invalid", e, short(b))
        ks = list(range(1, b["polls"] + 1))
        if len(ks) > case["max"]:
            rng = random.Random(case["pick"])
            ks = sorted(set(ks[:3] + ks[-3:] + rng.sample(ks, case["max"] - 6)))
        best = None
        seq = []
        for k in ks:
            kw = {"late": k, "late_ns": 10 ** 17} if case["how"] == "late" else {"cancel": k}
            r = ctx.run(single(p, env(), **kw), stats)
            v = status_violation(r, "search stopped at check %d" % k)
            if v:
                return v
            seq.append((k, r["ops"][0][0]))
            note(Stats(), r)
        seq.append((b["polls"] + 1, b))
        for k, o in seq:
            if o["exc"]:
                return Violation("raised", "stopping at check %d raised %s" % (k, o["exc"]), short(o))
            e = check_answer(ref, o)
            if e:
                return Violation("invalid", "stopped at check %d: %s" % (k, e), short(o))
            if o["rc"]:
                q = ref.quality(o["chains"])
                stats.see("nontrivial", "%s:%d:%s" % (base["hash"], k, q))
                if best is not None and q > best[1]:
                    return Violation("worse", "stopped at check %d the histogram (longest first) is %s, at the later check %d it is %s" % (best[0], best[1], k, q),
                                     {"earlier": best[0], "later": k, "chains": o["chains"]})
                if best is not None and q < best[1]:
                    stats.add("probe:improved_by_more_time")
                best = (k, q)
            elif best is not None:
                return Violation("lost", "a valid embedding was known at check %d, but stopping at check %d reports failure" % (best[0], k), short(o))
        if best is not None:
            good = b["chains"]
            fixed = {v for v, _ in p["fixed"]}
            dom = dict(p["restrict"])
            ini = [(v, c) for v, c in enumerate(good) if v not in fixed]
            if not any(v in dom and not set(c) <= set(dom[v]) for v, c in ini):
                for skip in (0, 1):
                    for kw in ({}, {"late": 1, "late_ns": 10 ** 17}):
                        q = with_(p, initial=ini, skip=skip, seed=case["again"])
                        r = ctx.run(single(q, env(), **kw), stats)
                        v = status_violation(r, "search from a valid embedding")
                        if v:
                            return v
                        o = r["ops"][0][0]
                        if o["exc"] or not o["rc"]:
                            return Violation("initial-lost", "a search started from a valid embedding (skip_initialization=%d) ended with %s" % (skip, o["exc"] or "failure"), short(o))
                        e = check_answer(ref, o)
                        if e:
                            return Violation("invalid", "from a valid embedding: " + e, short(o))
                        if ref.quality(o["chains"]) > best[1]:
                            return Violation("initial-worse", "started from an embedding with histogram %s, returned one with %s" % (best[1], ref.quality(o["chains"])), short(o))
                        stats.add("probe:started_from_valid")
        stats.sample(case)
        return None

    def shrink(self, case):
        if case["max"] > 8:
            pass
        for p in shrink_problem(case["p"]):
            yield dict(case, p=p)


class C06(EngineProp):
    id = "C06"
    rule = ("case: one problem and seed; baseline, then runs that differ in previous contents of memory, machine speed, wall-clock behaviour, verbosity with a slow sink, and in what "
            "the process did before (other searches, interrupted or failed ones). non-trivial: distinct variant whose perturbation took effect")
    cases = {"quick": 2200, "thorough": 60000}

    def gen(self, rng, i, tier):
        p = gen_problem(rng, big=rng.random() < .3, threads=rng.choice([1, 1, 1, 2, 3]))
        before = []
        probs = []
        for k in range(rng.randint(1, 3)):
            probs.append(gen_problem(rng, threads=rng.choice([1, 1, 2])))
            before.append({"p": k + 1, "cancel": rng.choice([0, 0, 1, 2, 3]), "nf": rng.choice([0, 0, rng.randint(1, 400)])})
        return {"p": p, "probs": probs, "before": before, "garbage": [rng.choice([1, 0x7f, 0x80, 0xff]), rng.randint(256, 1 << 20)], "verbose": rng.randint(0, 3),
                "log_ns": rng.choice([0, 10 ** 9]), "ns": rng.choice([1, 1000, 10 ** 5]), "jump": rng.choice([-1, 1]) * 10 ** rng.randint(9, 17), "jat": rng.random(),
                "sched": gen_sched(rng)}

    def judge(self, case, ctx, stats):
        p = case["p"]
        base = ctx.run(single(p, env()), stats)
        v = status_violation(base, "baseline")
        if v:
            return v
        b = base["ops"][0][0]
        want = outcome(b)

        def same(o, what):
            if outcome(o) != want:
                return Violation("not-a-function-of-the-seed", "%s changes the answer: %s instead of %s" % (what, str(outcome(o))[:250], str(want)[:250]), {"base": short(b), "got": short(o)})
            return None
        for g in case["garbage"]:
            r = ctx.run(single(p, env(garbage=g)), stats)
            v = status_violation(r, "with other previous contents of memory") or same(r["ops"][0][0], "the previous content of memory (pattern %d)" % g)
            if v:
                return v
            stats.add("fault:memory_garbage")
            stats.see("nontrivial", "g%s:%d" % (r["hash"], g) + str(r["steps"]) + base["hash"])
        work = b["step1"] - b["step0"]
        e = env(ns=case["ns"], jump=[[b["step0"] + int(case["jat"] * work), case["jump"]]], garbage=255)
        big = with_(p, timeout=1e9)
        r = ctx.run(single(big, e), stats)
        note(stats, r)
        v = status_violation(r, "with other clocks") or same(r["ops"][0][0], "the clock")
        if v:
            return v
        for vb in (0, case["verbose"]):
            r = ctx.run(single(with_(p, verbose=vb, timeout=1e9), env(), log_ns=case["log_ns"]), stats)
            v = status_violation(r, "with verbosity %d" % vb) or same(r["ops"][0][0], "verbosity %d" % vb)
            if v:
                return v
            if r["ops"][0][0]["messages"]:
                stats.add("fault:slow_or_verbose_sink")
                stats.see("nontrivial", "v%d:%s:%s" % (vb, r["hash"], r["ops"][0][0]["msg_hash"]))
        # what the process did before
        probs = [p] + case["probs"]
        nf = [x["nf"] for x in case["before"] if x["nf"]]
        seqops = [op("find", p=x["p"], cancel=x["cancel"]) for x in case["before"]]
        plan = {"env": env(nf=nf, garbage=77), "problems": probs, "callers": [{"p": 0, "ops": seqops + [op("find", clean=1)]}]}
        r = ctx.run(plan, stats)
        note(stats, r)
        v = status_violation(r, "after other searches in the process") or same(r["ops"][0][-1], "what the process did before")
        if v:
            return v
        # concurrent activity
        plan = {"env": env(**case["sched"]), "problems": probs, "callers": [{"p": 0, "ops": [op("find")]}] + [{"p": 0, "ops": [o]} for o in seqops]}
        r = ctx.run(plan, stats)
        note(stats, r)
        v = status_violation(r, "with concurrent searches") or same(r["ops"][0][0], "concurrent activity")
        if v:
            return v
        stats.sample(case)
        return None

    def shrink(self, case):
        for i in range(len(case["garbage"])):
            yield dict(case, garbage=case["garbage"][:i] + case["garbage"][i + 1:])
        if len(case["before"]) > 1:
            for i in range(len(case["before"])):
                yield dict(case, before=[case["before"][i]])
        for p in shrink_problem(case["p"]):
            yield dict(case, p=p)


class C07(EngineProp):
    id = "C07"
    rule = ("case: one problem; a clean run counts allocations and thread creations; then runs in which the allocation / thread creation at sampled positions (first, last, inside "
            "construction, inside workers, uniformly) fails, followed by a clean search; or a history of calls on one miner (as in C08) with a failing allocation. non-trivial: distinct (problem, failing position) whose failure fired")
    cases = {"quick": 1600, "thorough": 36000}

    def gen(self, rng, i, tier):
        if rng.random() < .3:
            return dict(HISTORIES.gen(rng, i, tier), nf=rng.random(), history=1)
        p = gen_problem(rng, big=rng.random() < .15, threads=rng.choice([1, 2, 2, 3, 4]))
        return {"p": p, "pos": [rng.random() for _ in range(5)], "early": [rng.randint(1, 200) for _ in range(2)], "tpos": [rng.random() for _ in range(4)],
                "double": rng.random() < .3, "sched": gen_sched(rng) if rng.random() < .5 else {}}

    def judge(self, case, ctx, stats):
        if case.get("history"):
            return HISTORIES.judge(case, ctx, stats)
        p = case["p"]
        ref = Ref(p)
        ops = lambda: [op("find"), op("find", clean=1)]
        base = ctx.run(multi(p, env(), ops()), stats)
        v = status_violation(base, "search without failures")
        if v:
            return v
        b, b2 = base["ops"][0]
        A = b["alloc1"]
        Tn = b["thread1"]
        plans = []
        for f in case["pos"]:
            k = 1 + int(f * A)
            plans.append(("allocation %d of %d" % (k, A), {"nf": [k]}))
        for k in case["early"]:
            if k <= A:
                plans.append(("allocation %d of %d" % (k, A), {"nf": [k]}))
        if case["double"] and A > 10:
            k = 1 + int(case["pos"][0] * A)
            plans.append(("allocations %d and following" % k, {"nf": list(range(k, k + 12))}))
        if Tn:
            for f in case["tpos"]:
                k = 1 + int(f * Tn)
                plans.append(("thread creation %d of %d" % (k, Tn), {"tf": [k]}))
            k = 1 + int(case["tpos"][0] * Tn)
            plans.append(("thread creations from %d on" % k, {"tf": list(range(k, k + 64))}))
        for what, f in plans:
            e = env(**dict(case["sched"], **f))
            r = ctx.run(multi(p, e, ops()), stats)
            v = status_violation(r, "failure of " + what)
            if v:
                return v
            if not (r["fired"]["new"] or r["fired"]["thread"]):
                continue
            stats.see("nontrivial", "%s:%s" % (base["hash"], what))
            note(Stats(), r)
            o, o2 = r["ops"][0]
            if not o["exc"]:
                if outcome(o) != outcome(b):
                    e = check_answer(ref, o)
                    if e:
                        return Violation("wrong-answer", "after failure of %s: %s" % (what, e), short(o))
                    if not o["rc"] and b["rc"]:
                        return Violation("wrong-answer", "after failure of %s the search reports that there is no embedding instead of raising" % what, short(o))
                stats.add("probe:failure_absorbed")
            else:
                stats.add("probe:raised:" + o["exc"])
            if outcome(o2) != outcome(b2):
                return Violation("corrupts-later", "after failure of %s the next search gives another answer" % what, {"base": short(b2), "got": short(o2)})
        stats.sample(case)
        return None

    def shrink(self, case):
        if case.get("history"):
            yield from HISTORIES.shrink(case)
            return
        for k in ("pos", "early", "tpos"):
            for i in range(len(case[k])):
                if k == "pos" and case["double"] and i == 0:
                    continue
                if k == "tpos" and i == 0:
                    continue
                yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
        if case["double"]:
            yield dict(case, double=False)
        if case["sched"]:
            yield dict(case, sched={})
        for p in shrink_problem(case["p"]):
            yield dict(case, p=p)


class C08(EngineProp):
    id = "C08"
    rule = ("case: one miner and a random history of searches, quick passes, changes of initial chains and improvement calls, with timeouts, interrupts, allocation failures and rejected "
            "arguments at sampled calls. non-trivial: distinct histories with at least three completed calls")
    cases = {"quick": 7000, "thorough": 100000}

    def gen(self, rng, i, tier):
        p = gen_problem(rng, big=rng.random() < .2, threads=rng.choice([1, 1, 1, 2, 3]))
        ref = Ref(p)
        n = rng.randint(2, 7)
        ops = [op("new")]
        big = components(ref.nT, p["T"])
        fixedq = {q for _, c in p["fixed"] for q in c}
        free = [q for q in big[0] if q not in fixedq]
        fixedv = {v for v, _ in p["fixed"]}
        for k in range(n):
            x = rng.random()
            if x < .45:
                o = op("mfind")
            elif x < .75:
                o = op("qpass", strategy=rng.choice([0, 1, 2, 3, 4, 4, 5]) if rng.random() < .8 else rng.randint(0, 4), clb=rng.choice([0, 0, 0, 1, 2, 4]), ob=rng.choice([0, 0, 0, 1, 2]),
                       ls=int(rng.random() < .4), cf=int(rng.random() < .5 or not any(z["k"] == "qpass" for z in ops)), rb=rng.choice([1e64, 1e64, 1.5]))
                if rng.random() < .3:
                    vs = list(range(ref.nS))
                    rng.shuffle(vs)
                    o["order"] = vs[:rng.randint(1, ref.nS)]
                    if rng.random() < .1:
                        o["order"].append(rng.choice([-1, ref.nS, ref.nS + 5]))
            elif free:
                ch = []
                usedq = set()
                for v in range(ref.nS):
                    if v in fixedv or rng.random() < .4:
                        continue
                    own = [q for q in free if q in ref.restrict[v]] if v in ref.restrict and rng.random() < .85 else free
                    if not own:
                        continue
                    c = [q for q in rand_chain(rng, ref.tadj, own, rng.randint(1, 3))]
                    if ref.connected(c) and not (set(c) & fixedq):
                        ch.append((v, c))
                if rng.random() < .08:
                    ch.append((ref.nS + 2, [free[0]]))     # rejected
                o = op("setinit", chains=ch)
            else:
                o = op("mfind")
            y = rng.random()
            if o["k"] == "mfind" and y < .2:
                o["late"] = rng.randint(1, 5); o["late_ns"] = 10 ** 17
            elif o["k"] == "mfind" and y < .4:
                o["cancel"] = rng.randint(1, 5)
            ops.append(o)
        # an answer becomes the initial embedding of a miner that skips initialization
        feed = int(not p["fixed"] and not p["restrict"] and rng.random() < .25)
        if feed:
            p["initial"] = []
            for o in ops:
                if o["k"] == "setinit" and rng.random() < .6:
                    q = rng.choice(big[0])
                    o["chains"] = [(v, rand_chain(rng, ref.tadj, big[0], rng.randint(1, 3), q)) for v in range(ref.nS)]    # linked, but overlapping
        return {"p": p, "ops": ops, "feed": feed, "nf": rng.choice([0, 0, 0, rng.random()]), "sched": gen_sched(rng) if p["threads"] > 1 else {}}

    def judge(self, case, ctx, stats):
        p = case["p"]
        if case.get("feed"):
            r = ctx.run(single(p, env()), stats)
            v = status_violation(r, "search")
            if v:
                return v
            if not r["ops"][0][0]["rc"] or r["ops"][0][0]["exc"]:
                return None
            p = with_(p, initial=[(v, c) for v, c in enumerate(r["ops"][0][0]["chains"]) if c], skip=1)
            case = dict(case, p=p)
            stats.add("probe:skipped_initialization")
        ref = Ref(p)
        ops = case["ops"]
        plan = multi(p, env(**case["sched"]), ops)
        r = ctx.run(plan, stats)
        v = status_violation(r, "history")
        if v:
            return v
        v = self.history(case, r, ctx, stats, None)
        if v:
            return v
        if case["nf"]:
            a0 = r["ops"][0][0]["alloc1"]
            a1 = r["ops"][0][-1]["alloc1"]
            k = a0 + 1 + int(case["nf"] * max(0, a1 - a0))
            plan = multi(p, env(**dict(case["sched"], nf=[k])), ops + [op("mfind", clean=1)])
            r2 = ctx.run(plan, stats)
            v = status_violation(r2, "history with failure of allocation %d" % k)
            if v:
                return v
            if r2["fired"]["new"]:
                v = self.history(dict(case, ops=ops + [op("mfind", clean=1)]), r2, ctx, stats, r)
                if v:
                    return v
                res = r2["ops"][0]
                i = next((i for i, o in enumerate(res) if o["exc"]), None)
                if i is not None and ops[i]["k"] == "setinit" and res[i]["exc"] == "std::bad_alloc":
                    # the miner has the old chains or the new ones
                    part = lambda r, cut: [outcome(o) for j, o in enumerate(r["ops"][0]) if j != cut and not o["skipped"]][i:len(ops) - 1]
                    got = part(r2, i)
                    if got != part(r, i):
                        ra = ctx.run(multi(p, env(**case["sched"]), ops[:i] + ops[i + 1:]), stats)
                        v = status_violation(ra, "history without call %d" % i)
                        if v:
                            return v
                        stats.add("probe:failed_change_of_chains")
                        if got != part(ra, None):
                            return Violation("half-changed", "call %d (setinit) failed for want of memory; afterwards the miner behaves neither as before nor as after that call" % i, {"got": str(got)[:300]})
        stats.sample(case)
        return None

    def history(self, case, r, ctx, stats, clean):
        p, ops = case["p"], case["ops"]
        ref = Ref(p)
        res = r["ops"][0]
        note(stats, r)
        if sum(1 for o in res if o["done"] and not o["exc"]) >= 3:
            stats.see("nontrivial", r["hash"] + str(r["steps"]))
        # tidy: the miner's current embedding is known to be disjoint, connected and linked
        tidy = ready = False
        ordered = 0         # is there an order that VARORDER_KEEP can keep?  2: yes, 1: perhaps
        init_tidy = not p["initial"] or ref_tidy(ref, dict(p["initial"]))
        first_find = True
        touched = False
        failed = False
        for i, (q, o) in enumerate(zip(ops, res)):
            if o["skipped"]:
                continue
            where = "call %d (%s)" % (i, q["k"])
            bad = o["exc"] in ("std::bad_alloc",)
            if bad:
                failed = True
            if q["k"] == "new":
                tidy = False
                if o["exc"]:
                    return None
            elif q["k"] == "setinit":
                for u, c in q["chains"]:
                    if u in ref.restrict:
                        ref.extra |= set(c) - set(ref.restrict[u])
                if not o["exc"]:
                    init_tidy = ref_tidy(ref, dict(q["chains"]))
                    touched = True
                elif bad:
                    touched = True
                    init_tidy = False
                else:
                    comps = components(ref.nT, p["T"])
                    unique = len(comps) == 1 or len(comps[0]) > len(comps[1])
                    if unique and all(0 <= v < ref.nS and set(c) <= set(comps[0]) for v, c in q["chains"]):
                        return Violation("rejects", "%s rejected valid initial chains: %s" % (where, o["exc"]))
                    stats.add("fault:rejected_argument")
            elif q["k"] == "mfind":
                e = check_answer(ref, o)
                if e:
                    return Violation("invalid", where + ": " + e, short(o))
                if q["cancel"] and o["polls"] >= q["cancel"] and not p["interactive"] and not bad and o["exc"] != "find_embedding::ProblemCancelledException":
                    return Violation("lost-interrupt", where + " was interrupted and returned %s" % (o["exc"] or o["rc"]), short(o))
                if first_find and not touched and not failed and not any(x["k"] == "qpass" for x in ops[:i]):
                    one = ctx.run(single(p, env(), cancel=q["cancel"], late=q["late"], late_ns=q["late_ns"]), stats)
                    v = status_violation(one, "one-shot search")
                    if v:
                        return v
                    oo = one["ops"][0][0]
                    if not oo["rc"] and not p["overlap"]:
                        oo = dict(oo, chains=o["chains"])   # a failed search hands out no chains
                    if outcome(oo) != outcome(o):
                        return Violation("differs-from-one-shot", "the first search of a miner returns %s, the one-shot function %s" % (str(outcome(o))[:200], str(outcome(oo))[:200]))
                    stats.add("probe:compared_with_one_shot")
                first_find = False
                touched = True
                ready = ready or not o["exc"]
                ordered = 2 if not o["exc"] and not p["skip"] else max(ordered, 1) if not bad else 1
                tidy = bool(o["rc"]) and not o["exc"]
            elif q["k"] == "qpass":
                if o["exc"]:
                    if not bad:
                        okorder = all(0 <= v < ref.nS for v in q["order"])
                        keep = q["strategy"] == 5 and not q["order"] and ordered < 2
                        if okorder and not keep:
                            return Violation("raises", "%s raised %s" % (where, o["exc"]), {"what": o["what"]})
                        stats.add("fault:rejected_argument")
                    else:
                        tidy = False
                        ordered = 1 if q["strategy"] != 5 else ordered
                    continue
                start = init_tidy if q["cf"] else tidy
                if not q["order"] and (q["cf"] or ready) and (q["strategy"] != 5 or ordered == 2):       # every variable is placed anew, or kept because it is in order
                    start = True
                if q["strategy"] == 5 and not q["order"] and not ordered:
                    return Violation("quickpass", where + " kept the order of an earlier call, but there was none", short(o))
                ready = True
                if not q["order"] and q["strategy"] != 5:
                    ordered = 2
                e = ref.constraints(o["chains"])
                if e and (q["cf"] or tidy):
                    return Violation("invalid", where + ": " + e, short(o))
                if q["ob"] == 0 and start:
                    e = partial_valid(ref, o["chains"])
                    if e:
                        return Violation("quickpass", where + ": " + e, dict(short(o), op=q))
                    if sum(1 for c in o["chains"] if c) > 1:
                        stats.add("probe:quickpass_checked")
                    if q["clb"] and not q["order"]:
                        for u, c in enumerate(o["chains"]):
                            if len(c) > q["clb"] and u not in ref.fixed:
                                return Violation("quickpass", where + ": a chain of %d target nodes, where %d are allowed" % (len(c), q["clb"]), dict(short(o), op=q))
                    tidy = True
                else:
                    tidy = False
                touched = True
        return None

    def shrink(self, case):
        if case["nf"]:
            yield dict(case, nf=0)
        if case.get("feed"):
            yield dict(case, feed=0)
        for i in range(1, len(case["ops"])):
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
        if case["sched"]:
            yield dict(case, sched={})
        for i, o in enumerate(case["ops"]):
            for k, d in (("ls", 0), ("clb", 0), ("ob", 0), ("cancel", 0), ("late", 0), ("order", []), ("strategy", 0), ("rb", 1e64)):
                if o.get(k) != d and o["k"] != "new":
                    yield dict(case, ops=case["ops"][:i] + [dict(o, **{k: d})] + case["ops"][i + 1:])
            for j in range(len(o["chains"])):
                yield dict(case, ops=case["ops"][:i] + [dict(o, chains=o["chains"][:j] + o["chains"][j + 1:])] + case["ops"][i + 1:])
        if not any(o["chains"] or o["order"] for o in case["ops"]):
            for p in shrink_problem(case["p"]):
                yield dict(case, p=p)


HISTORIES = C08()


def ref_tidy(ref, chains):
    """initial chains that are disjoint, connected, and adjacent whenever their variables are"""
    full = [chains.get(v, []) for v in range(ref.nS)]
    for v, c in ref.fixed.items():
        full[v] = c
    return partial_valid(ref, full, fixed_any=True) is None


def partial_valid(ref, chains, fixed_any=False):
    owner = {}
    for v, c in enumerate(chains):
        if not c:
            continue
        if v not in ref.fixed and not ref.connected(c):
            return "chain of %d is not connected: %s" % (v, sorted(c))
        for q in c:
            if q in owner and not (v in ref.fixed and owner[q] in ref.fixed):
                return "chains of %d and %d share target node %d" % (owner[q], v, q)
            owner[q] = v
    for a, b in ref.sadj:
        if a in ref.fixed and b in ref.fixed:
            continue
        if chains[a] and chains[b] and not any(y in ref.tadj[x] for x in chains[a] for y in chains[b]):
            return "source edge (%d, %d) is not covered although both ends have chains" % (a, b)
    return None


class C09(EngineProp):
    id = "C09"
    rule = ("case: 2-4 caller threads, each issuing searches on problems of its own (some multi-threaded, some timed out, interrupted or hit by allocation failures) under a sampled schedule; "
            "every answer is compared with the same call made alone. non-trivial: distinct schedule hashes with a context switch")
    cases = {"quick": 5000, "thorough": 60000}

    def gen(self, rng, i, tier):
        n = rng.randint(2, 4)
        probs = [gen_problem(rng, threads=rng.choice([1, 1, 1, 2])) for _ in range(n)]
        if rng.random() < .3:
            probs[1] = dict(probs[0])       # the same problem twice, separate objects
        callers = []
        for k in range(n):
            ops = []
            if rng.random() < .3:
                ops.append(op("new"))
                kinds = ["mfind", "mfind", "qpass"]
            else:
                kinds = ["find"]
            for _ in range(rng.randint(1, 2)):
                o = op(rng.choice(kinds))
                x = rng.random()
                if o["k"] != "qpass" and x < .2:
                    o["cancel"] = rng.randint(1, 4)
                elif o["k"] != "qpass" and x < .3:
                    # a stall of the whole process would also time others out: only interrupts are per caller
                    pass
                ops.append(o)
            callers.append({"p": k, "ops": ops})
        return {"probs": probs, "callers": callers, "envs": [gen_sched(rng) for _ in range(2)], "nf": rng.choice([0, 0, rng.random()])}

    def judge(self, case, ctx, stats):
        alone = []
        total = 0
        for c in case["callers"]:
            r = ctx.run({"env": env(), "problems": [case["probs"][c["p"]]], "callers": [{"p": 0, "ops": c["ops"]}]}, stats)
            v = status_violation(r, "caller alone")
            if v:
                return v
            alone.append([outcome(o) for o in r["ops"][0]])
            total += r["allocs"]
        for n, s in enumerate(case["envs"]):
            nf = [1 + int(case["nf"] * total)] if case["nf"] and n else []
            r = ctx.run({"env": env(**dict(s, nf=nf)), "problems": case["probs"], "callers": case["callers"]}, stats)
            note(stats, r)
            v = status_violation(r, "concurrent callers")
            if v:
                return v
            hit = 0
            for ci, res in enumerate(r["ops"]):
                excused = False
                for oi, o in enumerate(res):
                    if o["exc"] == "std::bad_alloc" and r["fired"]["new"]:
                        hit += 1
                        excused = True
                        continue
                    if excused or o["skipped"]:
                        continue    # later calls on an object whose call failed are C07/C08
                    if outcome(o) != alone[ci][oi]:
                        return Violation("interference", "caller %d, call %d: %s instead of %s" % (ci, oi, str(outcome(o))[:250], str(alone[ci][oi])[:250]),
                                         {"schedule": s["mode"]})
            if hit > r["fired"]["new"]:
                return Violation("interference", "%d callers saw bad_alloc but only %d allocation failed" % (hit, r["fired"]["new"]))
        stats.sample(case)
        return None

    def concretise(self, case, viol, ctx):
        for s in case["envs"]:
            c = dict(case, envs=[s], nf=0)
            v = self.judge(c, ctx, Stats())
            if v is None or v.cls != viol.cls:
                continue
            r = ctx.run({"env": env(**s), "problems": case["probs"], "callers": case["callers"]})
            t = dict(c, envs=[{k: x for k, x in trace_env(env(**s), r).items() if k in ("mode", "trace")}])
            v = self.judge(t, ctx, Stats())
            return t if v is not None and v.cls == viol.cls else c
        return case

    def shrink(self, case):
        if len(case["envs"]) > 1:
            for s in case["envs"]:
                yield dict(case, envs=[s])
        if len(case["callers"]) > 2:
            for i in range(len(case["callers"])):
                yield dict(case, callers=case["callers"][:i] + case["callers"][i + 1:])
        for i, c in enumerate(case["callers"]):
            if len(c["ops"]) > 1:
                for j in range(len(c["ops"])):
                    if c["ops"][j]["k"] != "new":
                        yield dict(case, callers=case["callers"][:i] + [dict(c, ops=c["ops"][:j] + c["ops"][j + 1:])] + case["callers"][i + 1:])
        if case["envs"][0]["mode"] == "trace":
            for t in shrink_list(case["envs"][0]["trace"]):
                yield dict(case, envs=[dict(case["envs"][0], trace=t)])
        for i in range(len(case["probs"])):
            for p in shrink_problem(case["probs"][i]):
                yield dict(case, probs=case["probs"][:i] + [p] + case["probs"][i + 1:])


ENGINE_PROPS = {c.id: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09)}
