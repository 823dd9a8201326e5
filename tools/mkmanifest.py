"""Writes MANIFEST.json from the properties and the check modules that exist."""
import json
import re
from pathlib import Path

V = Path(__file__).resolve().parent.parent
TECH = {
    "default": "runtime monitoring: online/offline oracle (independent reference model) over recorded executions of the real code",
    "C17": "runtime monitoring under stress: concurrent processes and threads with injected barriers, exactly-once oracle over the created names; file-utility reference model",
    "C24": "runtime monitoring with fault injection: the saving process is killed at every file-system event; oracle on the store and later simulations",
    "C12": "runtime monitoring: differential oracle over interleaved histories of simulators, and snapshots of user objects",
    "C02": "runtime monitoring: metamorphic/differential oracle over executions with different buffer, chunk and block sizes",
}
NOTE = {
    "default": "Held on the executions driven by this run (counts in the evidence file): seeded random and hostile workloads through the public API, judged by reference models written independently of the code. Trusts numpy/scipy and the harness; says nothing of executions that were not driven.",
    "C24": "Every file-system event of the save (seen through the interpreter's audit hook), and every write of the two text files and the pickle at several cut points, is a crash point that is enumerated; a crash is the death of the process (os._exit), not loss of power: what was handed to the kernel survives.",
}
props = [json.loads(line) for line in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    mod = V / "vf" / "checks" / f"{i.lower()}.py"
    if mod.exists():
        level = re.search(r'^LEVEL = "(\w+)"', mod.read_text(), re.M)
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} --tier quick", "thorough_cmd": f"./run.sh {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, TECH["default"]),
                       "level": level.group(1) if level else "exploration", "level_note": NOTE.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": "the check for this property is not built yet"})
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: all monitors observe the public API (signals, recordings, paths, files). Everything runs offline with /opt/venv/bin/python against /repo/src. known_findings.txt lists findings and repairs.",
}, indent=1) + "\n")
print(len(checks), "checks,", len(na), "without")
