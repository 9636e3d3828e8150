"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C17": "Boolean operations, offsets and slices are pure functions of their polygon arguments: no thread, clock, I/O, crash or history takes part in the result, so a simulator has no schedule or fault to decide and would be plain input fuzzing. Their failure behaviour (allocation faults, raising arguments) is covered by C15.",
    "C18": "Curve sampling accuracy is a pure numerical function of its arguments; no source of nondeterminism or fault takes part. Interrupted or failing evaluations are covered by C10.",
    "C19": "Polygon edits are pure numerical functions of the polygon; nothing for a scheduler or fault injector to decide. Their effect on later answers (histories) is covered by C11.",
    "C20": "Composition of placement transformations is a pure function of the hierarchy; nothing for a scheduler or fault injector to decide. Freshness, immutability and concurrency of the expansion are covered by C07, C08 and C11.",
}
TECH = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
have = [f[:-3].upper() for f in sorted(os.listdir(os.path.join(HERE, "sim", "checks"))) if f[0] == "c" and f.endswith(".py")]
checks = []
for i in props:
    if i in have and i in TECH:
        checks.append({"property": i, "quick_cmd": "./run.sh check " + i + " --tier quick", "thorough_cmd": "./run.sh check " + i + " --tier thorough",
                       "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection: " + TECH[i][0],
                       "level": "exploration", "level_note": TECH[i][1]})
    elif i not in NA:
        NA[i] = "The check for this property is not built yet."
m = {"version": 1, "setup_cmd": "./run.sh selftest",
     "hooks": {"guard": "none", "enable": "No hooks in /repo: every seam (clock, files, locks, thread switches, callbacks, allocator, tkinter) is reached from outside; the checks build a copy of /repo's working tree in a scratch directory, linking the extension with sim/shim.c.", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": i, "reason": NA[i]} for i in props if i not in [c["property"] for c in checks]],
     "notes": "Replay: ./run.sh replay FILE. One seed: ./run.sh seed ID N. Determinism proof: ./run.sh determinism. Known and fixed findings: known_findings.jsonl. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks])
