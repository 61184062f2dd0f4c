"""Development aid: run a scenario over many seeds on all cores and summarise what it reports."""
import sys, json, collections, subprocess, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
group, scen, prop = sys.argv[1:4]
secs = float(sys.argv[4]) if len(sys.argv) > 4 else 10
base = int(sys.argv[5]) if len(sys.argv) > 5 else 1
b = B.build(group)
ps = [subprocess.Popen([b, "--scenario", scen, "--seed", str(base + i * 1000000), "--count", "1000000", "--prop", prop, "--seconds", str(secs),
                        "--cpu", str(i), "--max-violations", "100000"], stdout=subprocess.PIPE, text=True, errors="replace") for i in range(8)]
c = collections.Counter(); ex = {}; tot = collections.Counter(); faults = collections.Counter(); probes = collections.Counter(); scheds = set()
for p in ps:
    for l in p.stdout:
        if l[0] == "S":
            scheds.add(l[2:].strip()); continue
        try: d = json.loads(l)
        except Exception:
            print("??", l[:300]); continue
        if d["t"] == "run":
            scheds.add(d["sched"])
            m = d["msg"]
            k = (d["status"], d["prop"], d["cls"], re.sub(r"\d+|\[\d+\][0-9a-f]*", "#", m)[:70] if d["cls"] == "oracle" else re.sub(r"(@[0-9a-f]+).*", r"\1", m.split(" at ", 1)[-1])[:60])
            c[k] += 1
            if k not in ex or d["points"] < ex[k][0]: ex[k] = (d["points"], d["seed"], m)
        else:
            for k in ("runs", "points", "switches", "preempts", "ops", "simtime", "violations", "inconclusive"): tot[k] += d[k]
            for k, v in d["faults"].items(): faults[k] += v[0]
            for k, v in d["probes"].items(): probes[k] += v
    p.wait()
print(dict(tot), "schedules", len(scheds)); print("faults", dict(faults)); print("probes", dict(probes))
def sym(m):
    pcs = re.findall(r"@([0-9a-f]+)", m)
    if pcs:
        out = subprocess.run(["addr2line", "-Cfse", b] + pcs, stdout=subprocess.PIPE, text=True).stdout.splitlines()
        for i, pc in enumerate(pcs):
            fn = out[2 * i].split("(")[0]
            m = m.replace("@" + pc, "%s %s" % (fn[-50:], out[2 * i + 1].split(" ")[0]), 1)
    return m
for k, v in c.most_common(int(os.environ.get("TOP", "14"))):
    print(v, k[:3], "seed", ex[k][1], "points", ex[k][0], "\n     ", sym(ex[k][2][:1500]))
