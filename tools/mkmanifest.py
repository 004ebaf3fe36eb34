"""Writes MANIFEST.json from props.P (claimed) and props.NA (not claimed, with the reason)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "cfg ariadne_verif", "enable": "RUSTFLAGS='--cfg ariadne_verif -Awarnings' cargo build (done by check.py)", "source_commits": hook},
    "checks": [],
    "not_applicable": [],
    "notes": "Every check extracts the functions of /repo/src mechanically (tools/vx.py), adds the contracts of overlay/ and lets Verus discharge every obligation; see DESIGN.md.",
}
for i in ids:
    if i in props.P:
        p = props.P[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "contract-based deductive verification: Verus contracts on the functions extracted from /repo on every run",
            "level": p.get("level", "proof"),
            "level_note": p["note"],
        })
        if p.get("theorems"):
            m["checks"][-1]["theorems"] = p["theorems"]
    else:
        m["not_applicable"].append({"property": i, "reason": props.NA[i]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(m["checks"]), "claimed")
except ImportError:
    print("not validated")
