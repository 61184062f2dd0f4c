"""Writes MANIFEST.json from config.py; properties without a check go under not_applicable."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import config as C
VERIF = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in C.CHECKS:
        c = C.CHECKS[i]
        checks.append(dict(
            property=i, quick_cmd="python3 driver/check.py %s quick" % i, thorough_cmd="python3 driver/check.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique="deterministic simulation with fault injection (seeded schedule and fault search)",
            level="exploration",
            level_note="Seeded sampling of workloads, interleavings and faults of scenario(s) %s: the real code, compiled from /repo with every memory "
                       "access, lock, clock and system call under the simulator's control; oracle: reference model, history checks, happens-before race "
                       "detection and heap checks. Trusts the simulated kernel and %s; a clean batch is evidence, not proof." % (
                           ", ".join(c["scen"]), "; ".join(C.union(C.STUBS, c)))))
    else:
        na.append(dict(property=i, reason=C.NOT_APPLICABLE.get(i, "no check yet")))
json.dump(dict(version=1, setup_cmd="python3 driver/build.py " + " ".join(sorted({g for c in C.CHECKS.values() for g in C.groups(c)})),
               checks=checks, not_applicable=na,
               notes="No hooks in /repo: the simulator is linked in below libstdc++/libc. replay: python3 driver/check.py --replay FILE"),
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
