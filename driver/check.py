#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property by seeded simulation
   check.py --replay <file>               re-run a replay file, exit 1 if it reproduces its violation"""
import collections, hashlib, json, os, re, subprocess, sys, tempfile, time, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
import config as C
VERIF = os.path.dirname(HERE)
NCPU = os.cpu_count() or 4
FINDINGS = os.path.join(VERIF, "known-findings.json")


def log(*a):
    print(*a, flush=True)


def symbolise(binary, m):
    pcs = re.findall(r"@([0-9a-f]{5,})", m)
    if not pcs:
        return m
    try:
        out = subprocess.run(["addr2line", "-Cfse", binary] + pcs, stdout=subprocess.PIPE, text=True, timeout=60).stdout.splitlines()
        for i, pc in enumerate(pcs):
            fn = out[2 * i].split("(")[0].split("<")[0]
            m = m.replace("@" + pc, "%s %s" % (fn[-60:], out[2 * i + 1].split(" ")[0]), 1)
    except Exception:
        pass
    return m


class Runner:
    def __init__(self, bins, group, prop):
        self.bins, self.group, self.prop = bins, group, prop
        self.tmp = tempfile.mkdtemp(prefix="scalopus-sim-")
        self.n = 0
        self.lock = threading.Lock()

    def close(self):
        subprocess.run(["rm", "-rf", self.tmp])

    def fresh(self, suffix):
        with self.lock:
            self.n += 1
            return os.path.join(self.tmp, "%d.%s" % (self.n, suffix))

    def binary(self, scen):
        return self.bins[C.split(scen, self.group)[0]]

    def one(self, scen, seed, rec=None, dump=None, trace=False):
        """one run in a fresh process -> dict of its run line"""
        cmd = [self.binary(scen), "--scenario", C.split(scen, self.group)[1], "--seed", str(seed), "--count", "1", "--prop", self.prop, "--all"]
        f = None
        if rec is not None:
            f = self.fresh("json")
            with open(f, "w") as h:
                json.dump({"W": rec["W"], "S": rec["S"], "F": rec["F"]}, h)
            cmd += ["--replay", f]
        if dump:
            cmd += ["--dump", dump]
        if trace:
            cmd += ["--trace"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE if trace else subprocess.DEVNULL, text=True, errors="replace")
        if f:
            os.unlink(f)
        for l in p.stdout.splitlines():
            if l.startswith('{"t":"run"'):
                d = json.loads(l)
                if trace:
                    d["trace"] = p.stderr
                return d
        return dict(status=3, prop="", cls="died", hash="", sched="", points=0, simtime=0, msg="no answer from the simulation", seed=seed)


def same(d, v):
    return d["status"] == 2 and d["prop"] == v["prop"] and d["cls"] == v["cls"]


def minimise(R, scen, v, rec, budget):
    """delta debugging over the scheduling decisions (S), the injected faults (F) and the workload choices (W)"""
    from concurrent.futures import ThreadPoolExecutor
    end = time.time() + budget
    ex = ThreadPoolExecutor(NCPU)
    tried = [0]

    def test(r):
        if time.time() > end:
            return False
        tried[0] += 1
        return same(R.one(scen, v["seed"], r), v)

    def first(cands):
        for i in range(0, len(cands), NCPU):
            if time.time() > end:
                return None
            res = list(ex.map(test, cands[i:i + NCPU]))
            for c, ok in zip(cands[i:], res):
                if ok:
                    return c
        return None

    def ddmin(get, put, r):
        items = get(r)
        n = 2
        if items:
            c = put(r, [])
            if test(c):
                return c
        while len(items) >= 1 and time.time() < end:
            n = min(n, len(items))
            size = (len(items) + n - 1) // n
            cands = [put(r, items[:i] + items[i + size:]) for i in range(0, len(items), size)]
            c = first(cands)
            if c is not None:
                r, items = c, get(c)
                n = max(n - 1, 2)
            elif n >= len(items):
                break
            else:
                n = min(len(items), n * 2)
        return r

    def flatF(r):
        return [(k, x) for k in sorted(r["F"]) for x in r["F"][k]]

    def putF(r, l):
        F = {}
        for k, x in l:
            F.setdefault(k, []).append(x)
        return dict(W=r["W"], S=r["S"], F=F)

    def putS(r, l):
        return dict(W=r["W"], S=l, F=r["F"])

    r = rec
    for _ in range(2):
        before = (len(r["S"]), len(flatF(r)), r["W"])
        r = ddmin(flatF, putF, r)
        r = ddmin(lambda x: x["S"], putS, r)
        # workload: drop the tail, then zero or shrink single choices
        W = list(r["W"])
        step = len(W)
        while step >= 1 and time.time() < end:
            c = first([dict(W=W[:max(0, len(W) - step)], S=r["S"], F=r["F"])])
            if c:
                r, W = c, c["W"]
            else:
                step //= 2
        cuts = [i for i, x in enumerate(W) if x]
        for i in cuts:
            if time.time() > end:
                break
            c = first([dict(W=W[:i] + [y] + W[i + 1:], S=r["S"], F=r["F"]) for y in ({0, W[i] // 2} - {W[i]} if W[i] > 1 else {0})])
            if c:
                r, W = c, c["W"]
        if before == (len(r["S"]), len(flatF(r)), r["W"]):
            break
    ex.shutdown()
    return r, tried[0]


def load_findings():
    try:
        return [f for f in json.load(open(FINDINGS)) if isinstance(f, dict)]
    except OSError:
        return []


def search(R, prop, scens, seconds, seed0):
    """seeded search on all cores -> aggregate, list of reported runs"""
    tot = sum(scens.values())
    agg = dict(runs=0, points=0, switches=0, preempts=0, ops=0, syscalls=0, threads=0, simtime=0.0, violations=0, inconclusive=0, wall=0.0)
    faults, probes = collections.Counter(), collections.Counter()
    fruns = collections.Counter()
    reported, scheds, perscen = [], set(), {}
    samples = []
    for scen, w in scens.items():
        procs = []
        # every scenario has its own stretch of seeds for every worker
        base = seed0 * 1000000007 + int(hashlib.sha256((prop + scen).encode()).hexdigest()[:6], 16) * 1000
        t0 = time.time()
        for i in range(NCPU):
            procs.append(subprocess.Popen(
                [R.binary(scen), "--scenario", C.split(scen, R.group)[1], "--seed", str(base + i * 100000000), "--count", "100000000", "--prop", prop,
                 "--seconds", "%.2f" % (seconds * w / tot), "--cpu", str(i), "--max-violations", "1"],
                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace"))
        outs = [None] * NCPU

        def rd(i):
            outs[i] = procs[i].communicate()[0]
            if '"status":2' in outs[i] and w is not None:
                pass

        ths = [threading.Thread(target=rd, args=(i,)) for i in range(NCPU)]
        [t.start() for t in ths]
        stop_at = None
        while any(t.is_alive() for t in ths):
            time.sleep(0.05)
            if stop_at is None and any(p.poll() is not None for p in procs) and any(o and '"status":2' in o for o in outs):
                stop_at = time.time() + 1.5  # somebody found a violation: no need to go on searching
            if stop_at and time.time() > stop_at:
                for p in procs:
                    if p.poll() is None:
                        p.kill()
                stop_at = time.time() + 1e9
        n = 0
        got_sum = 0
        for o in outs:
            for l in o.splitlines():
                if l.startswith("S "):
                    scheds.add(scen + l[2:])
                elif l.startswith("{"):
                    try:
                        d = json.loads(l)
                    except ValueError:
                        continue
                    if d["t"] == "run":
                        scheds.add(scen + d["sched"])
                        d["scenario"] = scen
                        reported.append(d)
                    else:
                        got_sum += 1
                        for k in agg:
                            agg[k] += d[k]
                        n += d["runs"]
                        for k, x in d["faults"].items():
                            faults[k] += x[0]
                            fruns[k] += x[1]
                        for k, x in d["probes"].items():
                            probes[k] += x
        perscen[scen] = dict(runs=n, first_seed=base, wall_s=round(time.time() - t0, 2))
        if any(d["status"] == 2 for d in reported):
            break
    return agg, faults, fruns, probes, reported, scheds, perscen


def run_findings(R, prop, findings):
    """the recorded findings of this property: each is confirmed by its own run; anything else it reports is a violation"""
    out = []
    for f in findings:
        if f.get("status") != "known" or f["property"] != prop or "scenario" not in f:
            continue
        d = R.one(f["scenario"], f.get("seed", 1))
        if d["status"] == 2:
            if re.search(f["match"], d["msg"]):
                log("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
            else:
                d["scenario"] = f["scenario"]
                out.append(d)
    return out


def decide(prop, tier):
    cfg = C.CHECKS[prop]
    seed0 = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    bins = {g: B.build(g) for g in C.groups(cfg)}
    built = time.time() - t0
    R = Runner(bins, cfg["group"], prop)
    try:
        return decide2(prop, tier, cfg, seed0, t0, built, R)
    finally:
        R.close()


def decide2(prop, tier, cfg, seed0, t0, built, R):
    seconds = cfg.get(tier, C.QUICK if tier == "quick" else C.THOROUGH)
    if os.environ.get("SIM_SECONDS"):
        seconds = float(os.environ["SIM_SECONDS"])
    findings = load_findings()
    extra = run_findings(R, prop, findings)
    agg, faults, fruns, probes, reported, scheds, perscen = search(R, prop, cfg["scen"], seconds, seed0)
    viols = extra + [d for d in reported if d["status"] == 2]
    incon = [d for d in reported if d["status"] == 3]
    # determinism: re-run a few seeds of this batch in fresh processes
    det = []
    for scen, p in perscen.items():
        for k in range(2):
            s = p["first_seed"] + k * 100000000 + k
            a, b = R.one(scen, s), R.one(scen, s)
            det.append(dict(scenario=scen, seed=s, hash=a["hash"], points=a["points"], status=a["status"]))
            if a["hash"] != b["hash"] or a["status"] != b["status"]:
                log("ERROR: seed %d of %s is not deterministic: %s / %s" % (s, scen, a["hash"], b["hash"]))
                return 3
    result = 0
    vinfo = None
    if viols:
        viols.sort(key=lambda d: d["points"])
        for v in viols:
            binary = R.binary(v["scenario"])
            group, name = C.split(v["scenario"], R.group)
            dump = R.fresh("dump")
            again = R.one(v["scenario"], v["seed"], dump=dump)
            if not (same(again, v) and again["hash"] == v["hash"]):
                log("ERROR: seed %d of %s reported '%s' but did not repeat it" % (v["seed"], v["scenario"], v["msg"][:300]))
                result = 3
                continue
            rec = json.load(open(dump))
            rec.setdefault("F", {})
            check = R.one(v["scenario"], v["seed"], rec)
            if not same(check, v):
                log("ERROR: the recorded trace of seed %d of %s does not replay" % (v["seed"], v["scenario"]))
                result = 3
                continue
            small, tried = minimise(R, v["scenario"], v, rec, float(os.environ.get("SIM_MINIMISE", cfg.get("minimise", 45 if tier == "quick" else 300))))
            fin = R.one(v["scenario"], v["seed"], small, trace=True)
            if not same(fin, v):
                small = rec
                fin = R.one(v["scenario"], v["seed"], small, trace=True)
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (prop, name, v["seed"]))
            n_sched, n_fault = len(small["S"]), sum(len(x) for x in small["F"].values())
            with open(path, "w") as f:
                json.dump(dict(property=prop, group=group, scenario=name, seed=v["seed"], violation=dict(prop=fin["prop"], cls=fin["cls"]),
                               message=symbolise(binary, fin["msg"]), hash=fin["hash"], points=fin["points"], simulated_s=fin["simtime"],
                               original=dict(points=v["points"], scheduling_decisions=len(rec["S"]), faults=sum(len(x) for x in rec["F"].values()),
                                             message=symbolise(binary, v["msg"])),
                               minimised=dict(scheduling_decisions=n_sched, faults=n_fault, runs_tried=tried),
                               W=small["W"], S=small["S"], F=small["F"], trace=fin.get("trace", "").splitlines()[-400:]), f, indent=1)
            log("%s: %s" % (prop, symbolise(binary, fin["msg"])[:1500]))
            log("  scenario %s, seed %d; minimised to %d scheduling decisions and %d faults (%d and %d before)" % (
                v["scenario"], v["seed"], n_sched, n_fault, len(rec["S"]), sum(len(x) for x in rec["F"].values())))
            log("VIOLATION property=%s replay=%s" % (prop, path))
            vinfo = dict(scenario=v["scenario"], seed=v["seed"], message=fin["msg"], replay=path)
            result = 1
            break
    if result == 0 and (agg["runs"] == 0 or len(incon) * 4 > agg["runs"]):
        log("ERROR: %d of %d runs gave no answer, first: %s" % (len(incon), agg["runs"], incon[0]["msg"] if incon else "-"))
        result = 3
    wall = time.time() - t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    sw = agg["wall"] / NCPU if agg["wall"] else 1
    cov = dict(
        evaluations=agg["runs"], distinct_nontrivial=len(scheds),
        rule="one evaluation = one simulated run of a scenario (its own seed decides workload, every scheduling decision, every fault); counted "
             "distinct by the hash of the sequence of (thread, scheduling point kind) of the run, so two runs count twice only if the interleaving "
             "differs; every run executes the scenario's workload against the real code and evaluates the oracles of this property",
        samples=det[:4] + [dict(scenario=d["scenario"], seed=d["seed"], status=d["status"], cls=d["cls"], msg=d["msg"][:300]) for d in (viols + incon)[:2]],
        seed_range={k: p["first_seed"] for k, p in perscen.items()}, scenarios=perscen,
        runs_per_hour=int(agg["runs"] / sw * 3600), simulated_seconds=round(agg["simtime"], 3), simulated_per_wall=round(agg["simtime"] / sw, 1),
        scheduling_points=agg["points"], context_switches=agg["switches"], preemptions=agg["preempts"], workload_operations=agg["ops"],
        system_calls=agg["syscalls"], threads=agg["threads"],
        faults_injected={k: dict(count=faults[k], runs=fruns[k]) for k in sorted(faults)}, probes_hit_in_runs=dict(sorted(probes.items())),
        inconclusive_runs=agg["inconclusive"], real_components=C.union(C.REAL, cfg), stubs=C.union(C.STUBS, cfg),
        determinism_reruns=len(det), build_s=round(built, 1))
    if vinfo:
        cov["violation"] = vinfo
    ev = dict(property=prop, tier=tier, seed=seed0, level="exploration", coverage=cov, wall_s=round(wall, 2), violations=len([v for v in viols]) if result == 1 else 0,
              assumptions=["the simulated kernel behaves like Linux for the calls scalopus makes (see DESIGN.md)",
                           "sampling: a clean batch is evidence for the schedules and faults explored, not proof"])
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d runs, %d distinct interleavings, %.0f simulated s, %d faults, %d inconclusive, %.1f s" % (
        prop, {0: "held", 1: "VIOLATED"}.get(result, "ERROR"), agg["runs"], len(scheds), agg["simtime"], sum(faults.values()), agg["inconclusive"], wall))
    return result


def replay(path):
    r = json.load(open(path))
    binary = B.build(r["group"])
    R = Runner({r["group"]: binary}, r["group"], r["property"])
    try:
        d = R.one(r["scenario"], r["seed"], r, trace=True)
        log(d.get("trace", ""))
        log(symbolise(binary, d["msg"]))
        ok = d["status"] == 2 and d["prop"] == r["violation"]["prop"] and d["cls"] == r["violation"]["cls"]
        log("hash %s (recorded %s)" % (d["hash"], r["hash"]))
        if ok:
            log("VIOLATION property=%s replay=%s" % (r["property"], path))
            return 1
        log("the violation does not occur on this tree")
        return 0
    finally:
        R.close()


def main():
    try:
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return decide(sys.argv[1], tier)
    except B.BuildError as e:
        log("ERROR: the simulation does not build: %s" % e)
        return 3


if __name__ == "__main__":
    sys.exit(main())
