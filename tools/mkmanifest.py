#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties whose checks exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "tools", "tmfv", "p_%s.py" % i.lower())):
        t, note = NOTES.get(i, ["TLA+ specification, TLC model checking and trace validation", ""])
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s" % i,
                           thorough_cmd="VERIF_TIER=thorough python3 tools/check.py %s" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="model_checking",
                           level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1,
         setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="--cfg tmf_verif (rustc cfg flag)",
                    enable="RUSTFLAGS through /verif/harness/.cargo/config.toml: rustflags = [\"--cfg\", \"tmf_verif\"]",
                    source_commits=["cc96da8"]),
         checks=checks, not_applicable=na,
         notes="Specifications in spec/, generators and projections in tools/, driver of the real library in harness/. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
