"""Writes MANIFEST.json: one check per property that has a module in pvlib/checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
notes = json.load(open(os.path.join(ROOT, "tools", "manifest_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "pvlib", "checks", i.lower() + ".py")) and i in notes:
        checks.append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": notes[i]["technique"],
            "level": "model_checking",
            "level_note": notes[i]["note"],
        })
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {
        "guard": "--cfg pokers_verif",
        "enable": "RUSTFLAGS='--cfg pokers_verif' cargo build --release --offline in /verif/harness, which depends on /repo by path",
        "source_commits": notes["hooks"],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": notes["notes"],
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
