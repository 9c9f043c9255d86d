import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin"); sys.dont_write_bytecode = True
import registry
NOTE = registry.NOTE if hasattr(registry, "NOTE") else {}
NA = {
 "C21": "A pure function of its input: no schedule, clock, I/O or fault takes part, so there is nothing to simulate. (The search checks compare distances against an independent computation in passing.)",
 "C22": "A pure function of its input: no schedule, clock, I/O or fault takes part.",
 "C24": "The feature is switched off in this build and needs several memory nodes; the sandbox has neither libnuma nor the hardware.",
 "C25": "The code makes no call to synchronise files with the disk and documents no such guarantee, so there is no durable state for a power-loss model to distinguish; process crashes are decided under C16.",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": f"bin/check {i} quick",
            "thorough_cmd": f"bin/check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and workloads",
            "level": registry.LEVEL.get(i, "exploration"),
            "level_note": NOTE.get(i, "Seeded pseudo-random search over simulated executions of the real code; a clean batch is evidence, not proof."),
        })
    else:
        na.append({"property": i, "reason": NA[i]})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
