"""The stages a check is made of."""
import json, os, re
from lib import *
import tours


class Ctx:
    def __init__(self, pid, tier, seed, out):
        self.pid, self.tier, self.seed, self.out = pid, tier, seed, out
        self.violations, self.known, self.timing = [], [], []
        self.states = self.transitions = 0
        self.traces = 0
        self.samples = []
        self.detail = {}
        self.build_s = 0.0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, q, t):
        return t if self.thorough else q

    def coverage(self):
        c = {"states": self.states, "transitions": self.transitions,
             "traces_validated_against_impl": self.traces,
             "samples": self.samples[:6] or ["none"]}
        c.update(self.detail)
        return c

    def add(self, key, d):
        self.detail.setdefault(key, []).append(d)

    def violation(self, text, lines):
        n = len(self.violations)
        p = os.path.join(self.out, "replay-%d.ndjson" % n)
        with open(p, "w") as f:
            for l in lines:
                f.write(l if l.endswith("\n") else l + "\n")
        self.violations.append({"replay": p, "text": text})


def report_rejects(ctx, tot, what):
    seen = 0
    for path, line in tot["rejects"]:
        seg, start = segment_of(path, line)
        rel = line - start
        if seen < 5:
            txt = ["%s: no behaviour of the specification explains event %d of this history:" % (what, rel),
                   seg[rel].strip()[:400] if rel < len(seg) else "?"]
            txt += ["  before it: " + l.strip()[:200] for l in seg[max(1, rel - 5):rel]]
            # the history up to and including the rejected event
            ctx.violation(txt, seg[:rel + 1])
        seen += 1


# ------------------------------------------------------------ specification
def mc(name, cfg=None, expect=None, workers=4, tiers=("quick", "thorough"), timeout=700, heap="6g"):
    """Exhaustive check of a specification by TLC.  expect = an invariant that
    must be violated (a reachability goal guarding against vacuity)."""
    cfg = cfg or name + ".cfg"

    def run(ctx):
        if ctx.tier not in tiers:
            return
        r = tlc(name + ".tla", cfg, os.path.join(ctx.out, "mc_" + cfg), workers=workers,
                timeout=timeout, heap=heap, extra=("-noGenerateSpecTE",))
        ok = "No error has been found" in r["out"]
        if expect is not None:
            if not (r["violated"] and expect in r["violated"]):
                raise ToolError("%s: expected %s to be violated\n%s" % (cfg, expect, r["out"][-2000:]))
            ctx.add("goals_reached", "%s: %s" % (cfg, r["violated"].strip()))
            return
        elif not ok:
            raise ToolError("specification %s fails its own check:\n%s" % (cfg, r["out"][-3000:]))
        ctx.states += r["distinct"]
        ctx.transitions += r["states"]
        ctx.add("spec_checked", {"cfg": cfg, "distinct_states": r["distinct"],
                                 "transitions": r["states"], "secs": round(r["secs"], 1)})
    run.__name__ = "mc:" + cfg
    return run


def olc(q, full=(), mutants=()):
    """The protocol specification Olc on its small instances q (always), its
    larger ones (thorough), and with one rule left out at a time: TLC must
    find the violation named in MUTANTS, otherwise the instances or the
    verdicts are too weak to mean anything."""
    def run(ctx):
        jobs = [mc("OlcMC_" + n, workers=2) for n in q]
        jobs += [mc("OlcMC_" + MUTANTS[f][0], cfg="OlcMut_%s.cfg" % f, expect=MUTANTS[f][1], workers=2)
                 for f in mutants]
        if ctx.thorough:
            jobs += [mc("OlcMC_" + n, workers=4, timeout=7000, heap="8g") for n in full]
        with ThreadPoolExecutor(2 if ctx.thorough else 4) as ex:
            for f in [ex.submit(j, ctx) for j in jobs]:
                f.result()
    run.__name__ = "olc:" + ",".join(q)
    return run


# rule left out -> (instance, what TLC must report)
MUTANTS = {
    "get_miss_unchecked": ("point_q", "Linearizable"),
    "check_ignores_lock": ("point_q", "Linearizable"),
    "race_leaks_leaf": ("point_q", "NoLeak"),
    "unlink_without_leaf_lock": ("point_q", "Linearizable"),
    "relock_in_place": ("rmw_q", "Linearizable"),
    "version_comes_round": ("rmw_q", "Linearizable"),
    "oom_keeps_lock": ("fault_q", "Unlocked0"),
    "grow_without_obsolete": ("point_q", ""),
    "free_at_once": ("point_q", "NoUseAfterFree"),
    "parent_stays_locked": ("point_q", "Unlocked0"),
    "scan_slots_unchecked": ("scan_q", "Linearizable"),
    "scan_end_unchecked": ("scan_q", "Linearizable"),
    "empty_without_recheck": ("empty_q", "Linearizable"),
}


# -------------------------------------------------------------- sequential
def seq(focus, check=None, q_events=64000, q_secs=6, t_events=1200000, t_secs=120, small=0):
    """Random single-threaded histories of the library validated by SeqTrace."""
    def run(ctx):
        chk = check or ctx.pid
        ev = ctx.scale(q_events, t_events) // NCPU
        secs = ctx.scale(q_secs, t_secs)
        outs = [os.path.join(ctx.out, "seq_%s_%d.nd" % (focus, i)) for i in range(NCPU)]

        def one(i):
            return run_vh(["seq", "--focus", focus, "--seed", ctx.seed * 1000 + i, "--out", outs[i],
                           "--emit", ev, "--secs", secs, "--small", small], timeout=secs + 300)
        with ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(one, range(NCPU)))
        stat = {"focus": focus, "histories_run": 0, "calls_run": 0, "distinct_histories": 0}
        files = []
        for i, r in enumerate(rs):
            if r["rc"] == 0:
                d = json.loads(r["out"].strip().splitlines()[-1])
                stat["histories_run"] += d["traces"]
                stat["calls_run"] += d["ops"]
                stat["distinct_histories"] += d["distinct"]
                files.append(outs[i])
            elif r["rc"] in (70, 71) and os.path.exists(outs[i] + ".crash") and fix_crash(outs[i] + ".crash"):
                files.append(outs[i] + ".crash")
            else:
                raise ToolError("harness failed rc=%s: %s" % (r["rc"], r["err"][-1500:]))
        tot = validate(files, "SeqTrace.tla", "SeqTrace.cfg", {"CHECK": chk}, ctx.out,
                       timeout=ctx.scale(300, 3000))
        stat["histories_validated"] = tot["histories"]
        stat["events_validated"] = tot["events"]
        ctx.states += tot["states"]
        ctx.transitions += tot["events"]
        ctx.traces += tot["histories"]
        ctx.add("sequential", stat)
        if files:
            with open(files[0]) as f:
                ls = [next(f, "") for _ in range(6)]
            ctx.samples.append([l.strip()[:300] for l in ls])
        report_rejects(ctx, tot, "single-threaded history (%s)" % focus)
    run.__name__ = "seq:" + focus
    return run


def tour(focus, check=None, q_events=96000, secs=20, t_secs=300):
    """Every edge of the state graphs of ArtTour taken on the real tree; the
    histories validated by SeqTrace (a sample of them in the quick tier, all
    of them in the thorough one, where TLC also explores the graphs again)."""
    def run(ctx):
        chk = check or ctx.pid
        ev = ctx.scale(q_events, 10**9) // NCPU

        def fresh(n):
            t, r = tours.make(n, os.path.join(ctx.out, "mc_tour_" + n))
            if t.splitlines()[0] != "spec " + tours.sources(n):
                raise ToolError("tour " + n)
            if shape_of(t) != shape_of(open(tours.path(n)).read()):
                raise ToolError("specs/tours/%s.tour is not what the specification says; run run/tours.py" % n)
            return r
        stale = [n for n in tours.NAMES if not tours.current(n)]
        if stale:
            raise ToolError("specs/tours out of date, run run/tours.py: " + " ".join(stale))
        if ctx.thorough:
            with ThreadPoolExecutor(NCPU) as ex:
                for n, r in zip(tours.NAMES, ex.map(fresh, tours.NAMES)):
                    ctx.states += r["distinct"]
                    ctx.transitions += r["states"]
                    ctx.add("spec_checked", {"cfg": "ArtTour_" + n, "distinct_states": r["distinct"],
                                             "transitions": r["states"], "secs": round(r["secs"], 1)})
        outs = [os.path.join(ctx.out, "tour_%s_%d.nd" % (focus, i)) for i in range(NCPU)]
        lim = ctx.scale(secs, t_secs)

        def one(i):
            return run_vh(["tour", "--dir", tours.DIR, "--focus", focus, "--seed", ctx.seed * 1000 + i,
                           "--shard", i, "--of", NCPU, "--out", outs[i], "--emit", ev, "--secs", lim],
                          timeout=lim + 300)
        with ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(one, range(NCPU)))
        st = {"focus": focus, "graphs": 0, "edges": 0, "edges_taken_on_the_real_tree": 0, "histories_run": 0,
              "calls_run": 0}
        files = []
        for i, r in enumerate(rs):
            if r["rc"] == 0:
                d = json.loads(r["out"].strip().splitlines()[-1])
                st["graphs"] = d["graphs"]
                st["edges"] += d["edges"]
                st["edges_taken_on_the_real_tree"] += d["edges_taken"]
                st["histories_run"] += d["traces"]
                st["calls_run"] += d["ops"]
                files.append(outs[i])
            elif r["rc"] in (70, 71) and os.path.exists(outs[i] + ".crash") and fix_crash(outs[i] + ".crash"):
                files.append(outs[i] + ".crash")
            else:
                raise ToolError("harness failed rc=%s: %s" % (r["rc"], r["err"][-1500:]))
        tot = validate(files, "SeqTrace.tla", "SeqTrace.cfg", {"CHECK": chk}, ctx.out,
                       timeout=ctx.scale(300, 3000))
        st["histories_validated"] = tot["histories"]
        st["events_validated"] = tot["events"]
        ctx.states += tot["states"]
        ctx.transitions += tot["events"]
        ctx.traces += tot["histories"]
        ctx.add("walks_of_the_model", st)
        report_rejects(ctx, tot, "walk of the model's state graph (%s)" % focus)
    run.__name__ = "tour:" + focus
    return run


def multi(q_events=40000, q_secs=6, t_events=600000, t_secs=180):
    """Several trees, allocators and threads at a time, validated by MultiTrace."""
    def run(ctx):
        ev, secs = ctx.scale(q_events, t_events) // NCPU, ctx.scale(q_secs, t_secs)
        outs = [os.path.join(ctx.out, "multi_%d.nd" % i) for i in range(NCPU)]

        def one(i):
            return run_vh(["multi", "--seed", ctx.seed * 1000 + i, "--out", outs[i], "--emit", ev,
                           "--secs", secs], timeout=secs + 300)
        with ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(one, range(NCPU)))
        st = {"histories_run": 0, "calls_run": 0}
        files = []
        for i, r in enumerate(rs):
            if r["rc"] == 0:
                d = json.loads(r["out"].strip().splitlines()[-1])
                st["histories_run"] += d["traces"]
                st["calls_run"] += d["calls"]
                files.append(outs[i])
            elif r["rc"] in (70, 71) and os.path.exists(outs[i] + ".crash") and fix_crash(outs[i] + ".crash"):
                files.append(outs[i] + ".crash")
            else:
                raise ToolError("harness failed rc=%s: %s" % (r["rc"], r["err"][-1500:]))
        tot = validate(files, "MultiTrace.tla", "MultiTrace.cfg", {}, ctx.out, timeout=ctx.scale(300, 3000))
        st["histories_validated"], st["events_validated"] = tot["histories"], tot["events"]
        ctx.states += tot["states"]
        ctx.transitions += tot["events"]
        ctx.traces += tot["histories"]
        ctx.add("several_trees", st)
        with open(files[0]) as f:
            ls = [next(f, "") for _ in range(8)]
        ctx.samples.append([l.strip()[:300] for l in ls if l])
        report_rejects(ctx, tot, "history of several trees")
    run.__name__ = "multi"
    return run


def bulk(q_numbers=60000, q_secs=4, t_numbers=1500000, t_secs=120):
    """Trees of up to 66 000 keys, many calls to an event, validated by
    BulkTrace."""
    def run(ctx):
        num, secs = ctx.scale(q_numbers, t_numbers), ctx.scale(q_secs, t_secs)
        outs = [os.path.join(ctx.out, "bulk_%d.nd" % i) for i in range(NCPU)]

        def one(i):
            return run_vh(["bulk", "--seed", ctx.seed * 1000 + i, "--out", outs[i], "--emit", num,
                           "--secs", secs, "--huge", i + 1 if i < 2 else int(ctx.thorough)], timeout=secs + 300)
        with ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(one, range(NCPU)))
        st = {"histories_run": 0, "numbers_compared": 0, "largest_tree": 0}
        files = []
        for i, r in enumerate(rs):
            if r["rc"] == 0:
                d = json.loads(r["out"].strip().splitlines()[-1])
                st["histories_run"] += d["traces"]
                st["numbers_compared"] += d["numbers"]
                st["largest_tree"] = max(st["largest_tree"], d["keys"])
                files.append(outs[i])
            elif r["rc"] in (70, 71) and os.path.exists(outs[i] + ".crash") and fix_crash(outs[i] + ".crash"):
                files.append(outs[i] + ".crash")
            else:
                raise ToolError("harness failed rc=%s: %s" % (r["rc"], r["err"][-1500:]))
        tot = validate(files, "BulkTrace.tla", "BulkTrace.cfg", {"CHECK": ctx.pid}, ctx.out,
                       timeout=ctx.scale(300, 3000))
        st["histories_validated"], st["events_validated"] = tot["histories"], tot["events"]
        ctx.states += tot["states"]
        ctx.transitions += tot["events"]
        ctx.traces += tot["histories"]
        ctx.add("large_trees", st)
        report_rejects(ctx, tot, "history of a large tree")
    run.__name__ = "bulk"
    return run


def shape_of(t):
    """A tour without its header; state numbers are already canonical."""
    return [l for l in t.splitlines() if not l.startswith("spec ")]


# -------------------------------------------------------------- concurrent
def conc(focus, check=None, q_secs=9, q_lines=12000, t_secs=240, t_lines=120000, rec=False, lin=True,
         p2=600, p3=150):
    """Concurrent histories of the library under chosen schedules, validated
    by LinTrace (what the callers saw) and, with rec, by ReclaimTrace (the
    life of the memory blocks)."""
    def run(ctx):
        chk = check or ctx.pid
        secs, lines = ctx.scale(q_secs, t_secs), ctx.scale(q_lines, t_lines)
        lf = [os.path.join(ctx.out, "lin_%s_%d.nd" % (focus, i)) for i in range(NCPU)]
        rf = [os.path.join(ctx.out, "rec_%s_%d.nd" % (focus, i)) for i in range(NCPU)]

        def one(i):
            return run_vh(["conc", "--tours", tours.DIR, "--focus", focus, "--seed", ctx.seed * 1000 + i, "--lin", lf[i],
                           "--rec", rf[i], "--emit", lines, "--secs", secs, "--core", i,
                           "--p2", ctx.scale(p2, 20000), "--p3", ctx.scale(p3, 2000),
                           "--walk", ctx.scale(120, 1500)], timeout=secs + 200)
        with ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(one, range(NCPU)))
        st = {"focus": focus, "scenarios": 0, "schedules_run": 0, "steps": 0, "distinct_histories": 0,
              "shapes": {}}
        lins, recs = [], []
        for i, r in enumerate(rs):
            if r["rc"] == 0:
                d = json.loads(r["out"].strip().splitlines()[-1])
                st["scenarios"] += d["scenarios"]
                st["schedules_run"] += d["schedules"]
                st["steps"] += d["steps"]
                st["distinct_histories"] += d["distinct"]
                for k, v in d["tags"].items():
                    st["shapes"][k] = st["shapes"].get(k, 0) + v
                lins.append(lf[i])
                recs.append(rf[i])
            elif r["rc"] in (70, 71) and os.path.exists(lf[i] + ".crash") and fix_crash(lf[i] + ".crash"):
                lins.append(lf[i] + ".crash")
            else:
                raise ToolError("harness failed rc=%s: %s" % (r["rc"], r["err"][-1500:]))
        st["shapes"] = len(st["shapes"])
        what = "concurrent history (%s)" % focus
        if lin:
            tot = validate(lins, "LinTrace.tla", "LinTrace.cfg", {"CHECK": chk}, ctx.out,
                           timeout=ctx.scale(400, 6000))
            st["histories_validated"], st["events_validated"] = tot["histories"], tot["events"]
            ctx.states += tot["states"]
            ctx.transitions += tot["events"]
            ctx.traces += tot["histories"]
            report_rejects(ctx, tot, what)
        else:
            crashed = [p for p in lins if p.endswith(".crash")]
            if crashed:
                report_rejects(ctx, validate(crashed, "LinTrace.tla", "LinTrace.cfg", {"CHECK": chk},
                                             ctx.out), what)
        if rec and not ctx.violations:
            tot = validate(recs, "ReclaimTrace.tla", "ReclaimTrace.cfg", {"CHECK": chk}, ctx.out,
                           timeout=ctx.scale(400, 6000))
            st["memory_histories_validated"], st["memory_events_validated"] = tot["histories"], tot["events"]
            ctx.states += tot["states"]
            ctx.transitions += tot["events"]
            ctx.traces += tot["histories"]
            report_rejects(ctx, tot, "life of the blocks (%s)" % focus)
        ctx.add("concurrent", st)
        src = [p for p in (recs if rec and not lin else lins) if os.path.exists(p)]
        if src:
            with open(src[0]) as f:
                ls = [next(f, "") for _ in range(12)]
            ctx.samples.append([l.strip()[:300] for l in ls if l])
    run.__name__ = "conc:" + focus
    return run


def free(focus, check=None, q_secs=4, q_lines=2500, t_secs=180, t_lines=40000, procs=3):
    """Concurrent histories of threads that really run in parallel, with random
    pauses; the histories whose outcome a shadow finds odd, and a sample of the
    others, are decided by LinTrace."""
    def run(ctx):
        chk = check or ctx.pid
        secs, lines = ctx.scale(q_secs, t_secs), ctx.scale(q_lines, t_lines)
        lf = [os.path.join(ctx.out, "free_%s_%d.nd" % (focus, i)) for i in range(procs)]

        def one(i):
            return run_vh(["free", "--tours", tours.DIR, "--focus", focus, "--seed", ctx.seed * 1000 + i, "--lin", lf[i],
                           "--emit", lines, "--secs", secs], timeout=secs + 300)
        with ThreadPoolExecutor(procs) as ex:
            rs = list(ex.map(one, range(procs)))
        st = {"focus": focus, "scenarios": 0, "runs": 0, "calls": 0}
        lins = []
        for i, r in enumerate(rs):
            if r["rc"] == 0:
                d = json.loads(r["out"].strip().splitlines()[-1])
                for k in ("scenarios", "runs", "calls"):
                    st[k] += d[k]
                lins.append(lf[i])
            elif r["rc"] in (70, 71) and os.path.exists(lf[i] + ".crash") and fix_crash(lf[i] + ".crash"):
                lins.append(lf[i] + ".crash")
            else:
                raise ToolError("harness failed rc=%s: %s" % (r["rc"], r["err"][-1500:]))
        tot = validate(lins, "LinTrace.tla", "LinTrace.cfg", {"CHECK": chk}, ctx.out,
                       timeout=ctx.scale(400, 6000))
        st["histories_validated"], st["events_validated"] = tot["histories"], tot["events"]
        ctx.states += tot["states"]
        ctx.transitions += tot["events"]
        ctx.traces += tot["histories"]
        ctx.add("free_running", st)
        report_rejects(ctx, tot, "history of free-running threads (%s)" % focus)
    run.__name__ = "free:" + focus
    return run
