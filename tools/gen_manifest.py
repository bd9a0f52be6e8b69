#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the checks that exist."""
import glob, json, os, re, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = {os.path.basename(p)[:-3].upper(): p for p in glob.glob(here + "/h-*/src/bin/c[0-9][0-9].rs")}
T = json.load(open(here + "/tools/checks.json"))
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p in have:
        t = T["checks"][p]
        checks.append({
            "property": p,
            "quick_cmd": f"bash run.sh {p}",
            "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p}",
            "evidence_file": f"evidence/{p}.json",
            "technique": t["technique"],
            "level": t.get("level", "exploration"),
            "level_note": t["note"],
        })
    else:
        na.append({"property": p, "reason": T["not_applicable"].get(p, "no check is built for it yet")})
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "cfg(tinymist_verif)", "enable": "RUSTFLAGS --cfg tinymist_verif, set in /verif/.cargo/config.toml", "source_commits": T["hook_commits"]},
    "checks": checks,
    "not_applicable": na,
    "notes": T["notes"],
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
